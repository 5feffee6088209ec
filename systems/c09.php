<?php
require_once __DIR__ . '/../lib/scale.php';
require_once __DIR__ . '/../lib/heaps.php';
return [
    'jobs' => function ($tier) {
        $th = $tier === 'thorough'; $jobs = [];
        foreach (['StrictMinHeap', 'StrictMaxHeap'] as $cls) {
            foreach ($th ? [[8, 4], [10, 2], [6, 6], [7, 5]] : [[7, 3], [5, 5], [9, 2]] as [$N, $k]) $jobs[] = ['name' => "layout-$cls-$N-$k", 'kind' => 'bfs', 'cfg' => ['cls' => $cls, 'N' => $N, 'pool' => array_map(fn($i) => "i$i", range(1, $k))], 'weight' => 60, 'bound' => "explicit-state search to closure over every reachable internal layout of at most $N elements over $k ordered values with repetitions"];
            $jobs[] = ['name' => "mixed-$cls", 'kind' => 'bfs', 'cfg' => ['cls' => $cls, 'N' => $th ? 4 : 3, 'pool' => ['N', 'F', 'T', 'i1', 'd1', 'z', 'd0', 'q', 's', 's1', ['i1'], 'o1']], 'weight' => 40, 'bound' => 'explicit-state search to closure over layouts of values of every type'];
            // all permutations (and all multisets) built, then drained, in every way of constructing
            foreach (['new', 'ctor', 'harr', 'gen', 'setstate', 'unser', 'clone', 'one'] as $w) if ($w !== 'new') $jobs[] = ['name' => "perm-$cls-$w", 'kind' => 'perm', 'cls' => $cls, 'way' => $w, 'n' => $th ? 8 : 6, 'weight' => 20, 'bound' => 'every permutation of up to ' . ($th ? 8 : 6) . ' values and every list over 3 values up to that length, every way of constructing, drained by extract and by foreach'];
            $jobs[] = ['name' => "big-$cls", 'kind' => 'big', 'cls' => $cls, 'max' => $th ? 130 : 40, 'weight' => 10, 'bound' => 'sizes up to ' . ($th ? 130 : 40) . ', ascending/descending/strided/equal/of mixed types, interleaved extracts'];
        }
        return [...$jobs, ...Scale::jobs(['StrictMinHeap', 'StrictMaxHeap'], 'ops', $tier)];
    },
    'sys' => fn($job) => new HeapSys($job['cfg']),
    'run' => function ($job) {
        if ($job['kind'] === 'scale') { Scale::run($job); return; }
        if ($job['kind'] === 'bfs') { Explorer::bfs(new HeapSys($job['cfg']), 1000); return; }
        $S = new HeapSys(['cls' => $job['cls'], 'N' => 1000, 'pool' => ['i1', 'i2']]);
        $case = function ($l) use ($S, $job) { Cases::run($l, function () use ($S, $job, $l) { $c = $S->start([$job['way'], $l]); St::$traces++; St::$transitions++; St::$distinct++; $S->probe($c, true); $S->step($c, ['extract']); $S->step($c, ['add', 'i2']); $S->probe($c, true); }); };
        if ($job['kind'] === 'perm') {
            $perm = function ($pre, $rest) use (&$perm, $case) { if (!$rest) { $case($pre); return; } foreach ($rest as $i => $x) { $r = $rest; unset($r[$i]); $perm([...$pre, $x], $r); } };
            for ($n = 0; $n <= $job['n']; $n++) $perm([], array_map(fn($i) => "i$i", $n ? range(1, $n) : []));
            $L = [[]]; for ($i = 0; $i < $job['n']; $i++) { $nx = []; foreach ($L as $l) foreach (['i1', 'i2', 'i3'] as $t) { $nx[] = [...$l, $t]; $case([...$l, $t]); } $L = $nx; }
            St::sample([$job['way'], $l ?? []]);
            return;
        }
        for ($n = 0; $n <= $job['max']; $n++) foreach (['asc', 'desc', 'stride', 'equal', 'zig', 'types', 'typesdesc', 'lastint'] as $o) foreach ([0, 1, 3] as $inter) Cases::run([$n, $o, $inter], function () use ($S, $n, $o, $inter) {
            $c = $S->start(['new']); St::$traces++; St::$distinct++;
            for ($i = 0; $i < $n; $i++) {
                $x = match ($o) { 'asc' => $i, 'desc' => $n - $i, 'stride' => ($i * 17) % ($n + 1), 'equal' => 7, 'zig' => $i % 2 ? $i : -$i, 'types', 'typesdesc', 'lastint' => 0 }; $j = $o === 'typesdesc' ? $n - $i : $i;
                $tok = match ($o) { 'types', 'typesdesc' => ["i$j", "s$j", "d$j.5", ["i$j"], 'N', ["s$j", 'F'], 'T'][$j % 7], 'lastint' => $i === $n - 1 ? 'i3' : "s$i", default => "i$x" };
                $S->step($c, ['add', $tok]); St::$transitions++;
                if ($inter && $i % $inter === $inter - 1 && $i % 4 < 2) { $S->step($c, ['extract']); St::$transitions++; }
            }
            $S->probe($c, true);
            while ($c->model) { $S->step($c, ['extract']); St::$transitions++; $S->probe($c, false); }
            $S->step($c, ['extract']);
        });
        St::sample(['big', $job['max']]);
    },
];
