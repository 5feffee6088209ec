<?php
require_once __DIR__ . '/../lib/scale.php';
require_once __DIR__ . '/../lib/maps.php';
return [
    'jobs' => function ($tier) {
        $th = $tier === 'thorough'; $jobs = [];
        foreach (['StrictTreeMap', 'StrictTreeSet'] as $cls) {
            $N = $th ? 12 : 9;
            $jobs[] = ['name' => "shapes-$cls", 'kind' => 'bfs', 'cfg' => ['cls' => $cls, 'N' => $N, 'fresh' => 'rank'], 'weight' => 60, 'bound' => "explicit-state search to closure over all reachable red-black trees (shape and colours) of at most $N nodes: insertion in every gap, removal/update of every node, pop, popFront, clear"];
            $pool = $th ? ['N', 'F', 'T', 'i0', 'd0', 'z', 's', 's0', 'q', []] : ['N', 'F', 'i0', 'd0', 'z', 's', 's0', 'q', [], ['i0']];
            $sh = $th ? 32 : 4;
            for ($i = 0; $i < $sh; $i++) $jobs[] = ['name' => "dfs-$cls-$i", 'kind' => 'dfs', 'cfg' => ['cls' => $cls, 'N' => 100, 'pool' => array_slice($pool, 0, $th ? 7 : 10), 'ops' => 'core'], 'depth' => $th ? 5 : 3, 'shard' => $i, 'nshards' => $sh, 'weight' => 10, 'bound' => 'every sequence of put/remove/pop/popFront/shift/clear over a pool of pairwise easily confused keys, depth ' . ($th ? 5 : 3)];
            $jobs[] = ['name' => "pool-$cls", 'kind' => 'bfs', 'cfg' => ['cls' => $cls, 'N' => 7, 'pool' => ['i1', 's1', 'd1', 'T', 'q', 'o1', ['i1', 'q']], 'ops' => 'full'], 'depth' => $th ? 100 : 5, 'weight' => 30, 'bound' => 'explicit-state search over trees with contents from a pool of 7 keys of all types'];
            $jobs = [...$jobs, ...kv_ctor_jobs($cls, ['i1', 's1', 'd1', 'q', 'T', ['s1'], 'o1'], $th ? 4 : 3, 'every list of keys up to the length, every way of constructing')];
            $ways = str_ends_with($cls, 'Map') ? ['ctor', 'gen', 'pairs', 'setstate', 'one'] : ['ctor', 'harr', 'gen', 'setstate', 'one'];
            foreach ($th ? [[0, 8], [9, 17], [18, 26], [27, 34], [62, 66]] : [[0, 8], [9, 13], [16, 17], [31, 32]] as [$a, $b]) $jobs[] = ['name' => "build-$cls-$a", 'kind' => 'build', 'cls' => $cls, 'from' => $a, 'to' => $b, 'orders' => $a > 13 && !$th ? ['asc', 'zig'] : ['asc', 'desc', 'zig', 'dup', 'rot', 'stride', 'swapend'], 'ways' => $a > 13 && !$th ? array_slice($ways, 0, 2) : $ways, 'weight' => $a * 2, 'bound' => 'build from n keys in several orders and every way of constructing, then remove each, insert each gap, drain from both ends'];
            foreach ($th ? [[5, 6, 7, 8, 9], [15, 16, 17], [31, 33]] : [[7, 8], [16]] as $ss) $jobs[] = ['name' => "patterns-$cls-{$ss[0]}", 'kind' => 'patterns', 'cls' => $cls, 'sizes' => $ss, 'keys' => ['int'], 'refill' => $th ? [1, 7] : [2], 'weight' => 15, 'bound' => 'fill n keys, remove every single/prefix/suffix/stride/pair pattern (every subset for n<=9), refill, re-insert'];
        }
        return [...$jobs, ...Scale::jobs(['StrictTreeMap', 'StrictTreeSet'], 'ops', $tier)];
    },
    'sys' => fn($job) => new KVSys($job['cfg']),
    'run' => fn($job) => $job['kind'] === 'scale' ? Scale::run($job) : (match ($job['kind']) { 'ctor' => kv_ctor_run($job), 'build' => kv_build_run($job), default => kv_run($job) }),
];
