<?php
require_once __DIR__ . '/../lib/scale.php';
require_once __DIR__ . '/../lib/pairs.php';
const MI_WAYS = ['pairs', 'pairsgen', 'setstate', 'gen', 'arr', 'unser', 'clone', 'one'];
return [
    'jobs' => function ($tier) {
        $th = $tier === 'thorough'; $jobs = [];
        $N = $th ? 36 : 18;
        foreach (['new', ...MI_WAYS] as $w) { $in = []; foreach ($w === 'new' ? [0] : ($th ? range(0, $N) : [0, 1, 3, 4, 5, 9, 16, 17]) as $k) $in[] = [$w, [], $k]; $jobs[] = ['name' => "cap-$w", 'kind' => 'bfs', 'cfg' => ['N' => $N, 'inits' => $in], 'weight' => 20, 'bound' => "explicit-state search to closure over (size, capacity) with at most $N pairs, from every way of constructing"]; }
        $pool = [['i1', 'N'], ['s1', 'i1'], ['N', 'i1'], ['i1', 'i1']];
        $jobs[] = ['name' => 'pool', 'kind' => 'bfs', 'cfg' => ['N' => $th ? 4 : 3, 'pool' => $pool], 'depth' => $th ? 5 : 4, 'weight' => 20, 'bound' => 'explicit-state search over contents with repeated and easily confused keys'];
        $sh = $th ? 16 : 4;
        for ($i = 0; $i < $sh; $i++) $jobs[] = ['name' => "dfs-$i", 'kind' => 'dfs', 'cfg' => ['N' => 6], 'depth' => $th ? 5 : 4, 'shard' => $i, 'nshards' => $sh, 'weight' => 20, 'bound' => 'every operation sequence up to depth ' . ($th ? 5 : 4)];
        return [...$jobs, ...Scale::jobs(['MutableIterable'], 'ops', $tier)];
    },
    'sys' => fn($job) => new MISys($job['cfg']),
    'run' => fn($job) => $job['kind'] === 'scale' ? Scale::run($job) : ($job['kind'] === 'bfs' ? Explorer::bfs(new MISys($job['cfg']), $job['depth'] ?? 1000) : Explorer::dfs(new MISys($job['cfg']), $job['depth'], $job['shard'], $job['nshards'])),
];
