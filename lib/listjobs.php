<?php
require_once __DIR__ . '/lists.php';
/* Jobs of one list class. */
function list_jobs(string $cls, string $tier): array {
    $th = $tier === 'thorough'; $jobs = [];
    $c0 = ['Vector' => 'any', 'Deque' => 'any', 'IntVector' => 'i8', 'LowMemoryVector' => 'i16', 'BitVector' => 'p'][$cls];
    if ($cls === 'BitVector') {
        $n = $th ? 10 : 6;
        $jobs[] = ['name' => 'bfs', 'kind' => 'bfs', 'cfg' => ['cls' => $cls, 'N' => $n, 'ks' => [1, 2], 'inits' => [['new'], ['gen', []], ['arr', ['t', 'f', 't']]]], 'depth' => 40, 'weight' => 50, 'bound' => "explicit-state search over all BitVector contents of at most $n bits, all operations, to closure"];
    } else {
        $n = ['Vector' => $th ? 40 : 14, 'Deque' => $th ? 34 : 12, 'IntVector' => $th ? 12 : 6, 'LowMemoryVector' => $th ? 9 : 5][$cls];
        $jobs[] = ['name' => 'bfs', 'kind' => 'bfs', 'cfg' => ['cls' => $cls, 'N' => $n], 'depth' => 400, 'weight' => 50, 'bound' => "explicit-state search to closure over all (size, capacity, shadow representation) states of $cls with at most $n elements, all operations at all offsets"];
    }
    // un-deduplicated sequences
    $d = $th ? 4 : 3; $sh = $th ? 64 : 8;
    $inits = [['new'], ['arr', [$c0, $c0, $c0]], ['gen', array_fill(0, 4, $c0)]];
    if ($cls === 'BitVector') $inits = $th ? [['new'], ['arr', ['p'], 7], ['arr', ['p'], 62]] : [['new'], ['arr', ['p'], 6], ['arr', ['p'], 14], ['arr', ['p'], 62]];
    if ($cls === 'BitVector') { $d = $th ? 3 : 2; }
    for ($i = 0; $i < $sh; $i++) $jobs[] = ['name' => "dfs-$i", 'kind' => 'dfs', 'cfg' => ['cls' => $cls, 'N' => 200, 'ops' => 'core', 'ks' => $cls === 'BitVector' && !$th ? [1] : [1, 2], 'inits' => $inits, 'classes' => $cls === 'BitVector' ? ['t', 'f'] : ($cls === 'IntVector' ? ['i8', 'i16', 'i64'] : ($cls === 'LowMemoryVector' ? ['bn', 'i8', 'any'] : null))], 'depth' => $d, 'shard' => $i, 'nshards' => $sh, 'weight' => 10, 'bound' => "every sequence of $d core operations from 3 initial states, no deduplication"];
    // large sizes around growth and word boundaries
    $sizes = $cls === 'BitVector' ? [15, 16, 17, 31, 32, 33, 63, 64, 65, 71, 72, 127, 128, 129] : [7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129];
    if ($th) $sizes = [...$sizes, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025];
    foreach ($sizes as $s) {
        $in = [['arr', [$c0], $s], ['gen', [$c0], $s], ['push1', [$c0], $s], ['front1', [$c0], $s], ['over', [$c0], $s, $s], ['clone', [$c0], $s]];
        if ($cls === 'Deque') foreach (array_unique([1, intdiv($s, 2), $s - 1]) as $k) $in[] = ['rot', [$c0], $s, $k];
        $jobs[] = ['name' => "size-$s", 'kind' => 'dfs', 'cfg' => ['cls' => $cls, 'N' => $s + 40, 'ops' => 'core', 'ks' => [1, 3, 17], 'inits' => $in, 'classes' => $cls === 'BitVector' ? ['p', 't'] : ($cls === 'IntVector' ? ['i8', 'i32'] : ($cls === 'LowMemoryVector' ? ['i16', 'any'] : null))], 'depth' => $th && $s < 200 ? 2 : 1, 'shard' => 0, 'nshards' => 1, 'weight' => $s < 200 ? 12 : 5, 'bound' => 'every core operation sequence of length 1 (2 in thorough) from vectors of size around powers of two built in 6+ ways'];
    }
    foreach ($cls === 'BitVector' ? [300, 66001] : [300, 66001] as $s) foreach ($cls === 'IntVector' ? ['i8', 'i16', 'i64'] : ($cls === 'LowMemoryVector' ? ['bn', 'i16', 'd', 'any'] : ($cls === 'BitVector' ? ['p'] : ['i32', 'any'])) as $k)
        $jobs[] = ['name' => "huge-$s-$k", 'kind' => 'huge', 'cls' => $cls, 'n' => $s, 'class' => $k, 'weight' => $s > 1000 ? 15 : 3, 'bound' => 'sizes beyond 2^8 and 2^16: every core operation once, every way of constructing, growth and shrinking to both sides of the boundaries, bulk arguments'];
    if ($cls === 'IntVector' || $cls === 'LowMemoryVector') {
        $ways = [['ctor', 'gen', 'push'], ['push2', 'append', 'front', 'front2'], ['ins0', 'ins1', 'ins2', 'set'], ['set0', 'aset', 'oset', 'unser'], ['state', 'clone', 'pop', 'popf'], ['unset', 'clear', 'long', 'setInt', 'pushInts']];
        foreach ($ways as $i => $w) $jobs[] = ['name' => "boundary-$i", 'kind' => 'boundary', 'cls' => $cls, 'ways' => $w, 'weight' => 5, 'bound' => 'all ordered pairs of boundary values stored in every way, each boundary value searched'];
    }
    return $jobs;
}
function list_def(string $cls): array {
    return [
        'jobs' => fn($tier) => list_jobs($cls, $tier),
        'sys' => fn($job) => new ListSys($job['cfg']),
        'run' => function ($job) {
            if ($job['kind'] === 'bfs') Explorer::bfs(new ListSys($job['cfg']), $job['depth']);
            elseif ($job['kind'] === 'dfs') Explorer::dfs(new ListSys($job['cfg']), $job['depth'], $job['shard'], $job['nshards']);
            elseif ($job['kind'] === 'boundary') ListSys::boundary($job);
            elseif ($job['kind'] === 'huge') ListSys::huge($job);
        },
    ];
}
