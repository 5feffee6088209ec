<?php
require_once __DIR__ . '/../lib/scale.php';
require_once __DIR__ . '/../lib/maps.php';
return [
    'jobs' => function ($tier) {
        $th = $tier === 'thorough'; $jobs = [];
        foreach (['StrictSortedVectorMap', 'StrictSortedVectorSet', 'SortedIntVectorSet'] as $cls) {
            $int = $cls === 'SortedIntVectorSet'; $map = str_ends_with($cls, 'Map');
            $ways = $map ? ['ctor', 'gen', 'pairs', 'pairsgen', 'setstate', 'one'] : ['ctor', 'harr', 'gen', 'setstate', 'one'];
            if (!$int) {
                $N = $th ? 9 : 7;
                $jobs[] = ['name' => "rank-$cls", 'kind' => 'bfs', 'cfg' => ['cls' => $cls, 'N' => $th ? 20 : 10, 'fresh' => 'rank'], 'weight' => 10, 'bound' => 'explicit-state search over sizes: insertion in every gap, removal/update of every element, pops, clear'];
                $pool = ['N', 'F', 'i0', 'd0', 'z', 's', 's0', 'q', [], ['i0']];
                $sh = $th ? 32 : 4;
                for ($i = 0; $i < $sh; $i++) $jobs[] = ['name' => "dfs-$cls-$i", 'kind' => 'dfs', 'cfg' => ['cls' => $cls, 'N' => 100, 'pool' => array_slice($pool, 0, $th ? 7 : 10), 'ops' => 'core'], 'depth' => $th ? 5 : 3, 'shard' => $i, 'nshards' => $sh, 'weight' => 10, 'bound' => 'every sequence of put/remove/pop/popFront/shift/clear over a pool of pairwise easily confused keys, depth ' . ($th ? 5 : 3)];
                $jobs[] = ['name' => "pool-$cls", 'kind' => 'bfs', 'cfg' => ['cls' => $cls, 'N' => 7, 'pool' => ['i1', 's1', 'd1', 'T', 'q', 'o1', ['i1', 'q']], 'ops' => 'full'], 'depth' => 100, 'weight' => 30, 'bound' => 'explicit-state search to closure over all subsets of a pool of 7 keys of all types'];
                $jobs = [...$jobs, ...kv_ctor_jobs($cls, ['i1', 's1', 'd1', 'q', 'T', ['s1'], 'o1'], $th ? 4 : 3, 'every list of keys up to the length, every way of constructing')];
                $jobs = [...$jobs, ...array_map(fn($j) => ['name' => $j['name'] . '-long'] + $j, kv_ctor_jobs($cls, ['i1', 'i2', 'i3'], $th ? 8 : 6, 'every list over 3 keys up to the length, every way of constructing'))];
            } else {
                $ib = ['i-129', 'i-128', 'i0', 'i127', 'i128', 'i32767', 'i32768', 'i-32769', 'i2147483647', 'i2147483648', 'M', 'm'];
                $jobs[] = ['name' => "pool-$cls", 'kind' => 'bfs', 'cfg' => ['cls' => $cls, 'N' => 12, 'pool' => $th ? $ib : ['i-129', 'i-128', 'i0', 'i128', 'i32768', 'i2147483648', 'm']], 'depth' => 100, 'weight' => 60, 'bound' => 'explicit-state search to closure over all subsets of integers at the storage width boundaries'];
                $sh = $th ? 16 : 4;
                for ($i = 0; $i < $sh; $i++) $jobs[] = ['name' => "dfs-$cls-$i", 'kind' => 'dfs', 'cfg' => ['cls' => $cls, 'N' => 100, 'pool' => $th ? ['i0', 'i-1', 'i128', 'i-32769', 'M', 'm'] : ['i0', 'i-1', 'i128', 'i-32769', 'm']], 'depth' => $th ? 4 : 3, 'shard' => $i, 'nshards' => $sh, 'weight' => 20, 'bound' => 'every sequence of add/remove/pop/clear over integers of every storage width, depth ' . ($th ? 4 : 3)];
                $jobs = [...$jobs, ...kv_ctor_jobs($cls, $th ? $ib : array_slice($ib, 0, 12), 3, 'every list of boundary integers up to the length, every way of constructing')];
                $jobs = [...$jobs, ...array_map(fn($j) => ['name' => $j['name'] . '-long'] + $j, kv_ctor_jobs($cls, ['i1', 'i200', 'i-3'], $th ? 8 : 6, 'every list over 3 keys up to the length, every way of constructing'))];
                $ways = ['ctor', 'harr', 'gen', 'one'];
            }
            foreach ($th ? [[0, 17], [18, 34], [62, 66]] : [[0, 9], [14, 18]] as [$a, $b]) $jobs[] = ['name' => "build-$cls-$a", 'kind' => 'build', 'cls' => $cls, 'from' => $a, 'to' => $b, 'orders' => ['asc', 'desc', 'zig', 'dup', 'rot', 'stride', 'swapend'], 'ways' => $a > 13 && !$th ? array_slice($ways, 0, 2) : $ways, 'weight' => 10 + $a, 'bound' => 'build from n keys in several orders and every way of constructing, then remove each, insert each gap, drain from both ends'];
        }
        return [...$jobs, ...Scale::jobs(['StrictSortedVectorMap', 'StrictSortedVectorSet', 'SortedIntVectorSet'], 'ops', $tier)];
    },
    'sys' => fn($job) => new KVSys($job['cfg']),
    'run' => fn($job) => $job['kind'] === 'scale' ? Scale::run($job) : (match ($job['kind']) { 'ctor' => kv_ctor_run($job), 'build' => kv_build_run($job), default => kv_run($job) }),
];
