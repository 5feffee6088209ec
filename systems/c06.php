<?php
require_once __DIR__ . '/../lib/scale.php';
require_once __DIR__ . '/../lib/maps.php';
return [
    'jobs' => function ($tier) {
        $th = $tier === 'thorough'; $jobs = [];
        foreach (['StrictHashMap', 'StrictHashSet'] as $cls) {
            // (a) slot layouts: fresh colliding keys, symmetry-reduced
            $sl = $th ? 18 : 10;
            foreach ([['A'], ['A', 'B']] as $hcl) {
                $s = count($hcl) > 1 ? ($th ? 10 : 7) : ($th ? 17 : 10);
                $jobs[] = ['name' => "slots-$cls-" . implode('', $hcl), 'kind' => 'bfs', 'cfg' => ['cls' => $cls, 'N' => 100, 'fresh' => 'coll', 'hcl' => $hcl, 'slots' => $s], 'weight' => 40, 'bound' => "explicit-state search to closure over hash slot layouts (gaps, chains of keys colliding in the low 6 hash bits) of at most $s slots with " . count($hcl) . ' collision class(es)'];
            }
            // (b) every sequence over a small pool of awkward keys
            $pool = ['N', 'F', 'i0', 'd0', 'z', 's', 's0', 'q', [], ['i0']];
            $d = $th ? 5 : 4; $sh = $th ? 32 : 4;
            for ($i = 0; $i < $sh; $i++) $jobs[] = ['name' => "dfs-$cls-$i", 'kind' => 'dfs', 'cfg' => ['cls' => $cls, 'N' => 100, 'pool' => array_slice($pool, 0, $th ? 8 : 10), 'ops' => 'core'], 'depth' => $th ? $d : ($d - 1), 'shard' => $i, 'nshards' => $sh, 'weight' => 10, 'bound' => "every sequence of put/remove/clear over a pool of keys that are pairwise easily confused (null,false,0,0.0,-0.0,'',\"0\",NAN,[],[0]), depth " . ($th ? 5 : 3)];
            // (c) explicit-state search over all contents and orders of a small pool
            $jobs[] = ['name' => "pool-$cls", 'kind' => 'bfs', 'cfg' => ['cls' => $cls, 'N' => $th ? 5 : 4, 'pool' => ['i1', 's1', 'd1', 'T', 'q', 'o1', ['i1', 'q']], 'ops' => 'full'], 'depth' => $th ? 9 : 5, 'weight' => 30, 'bound' => 'explicit-state search over ordered contents of a pool of 7 keys of all types'];
            $jobs = [...$jobs, ...kv_ctor_jobs($cls, ['i1', 's1', 'd1', 'q', 'T', ['s1'], 'o1'], $th ? 4 : 3, 'every list of keys up to the length, every way of constructing')];
            // (d) fill/remove/refill
            $sizes = $th ? [[1, 2, 3, 4, 5, 6, 7, 8, 9], [15, 16, 17], [31, 32, 33, 34], [63, 64, 65], [127, 128, 129]] : [[1, 3, 7, 8, 9], [16, 17], [33, 64]];
            foreach ($sizes as $ss) foreach ($th ? ['int', 'coll', 'mix'] : ['int', 'coll'] as $kk) $jobs[] = ['name' => "patterns-$cls-{$ss[0]}-$kk", 'kind' => 'patterns', 'cls' => $cls, 'sizes' => $ss, 'keys' => [$kk], 'refill' => $th ? [1, 2, 7, 33] : [1, 9], 'weight' => 15, 'bound' => 'fill n keys, remove every single/prefix/suffix/stride/pair pattern (every subset for n<=9), refill, re-insert'];
        }
        return [...$jobs, ...Scale::jobs(['StrictHashMap', 'StrictHashSet'], 'ops', $tier)];
    },
    'sys' => fn($job) => new KVSys($job['cfg']),
    'run' => fn($job) => $job['kind'] === 'scale' ? Scale::run($job) : ($job['kind'] === 'ctor' ? kv_ctor_run($job) : kv_run($job)),
];
