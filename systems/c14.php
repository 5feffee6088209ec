<?php
require_once __DIR__ . '/../lib/values.php';
return [
    'jobs' => function ($tier) {
        $th = $tier === 'thorough'; $jobs = []; $n = count(universe(true));
        $jobs[] = ['name' => 'pairs', 'kind' => 'pairs', 'big' => true, 'weight' => 5, 'bound' => "every ordered pair of $n values of all types against an independent definition of the order"];
        $sh = $th ? 8 : 4;
        for ($s = 0; $s < $sh; $s++) $jobs[] = ['name' => "triples-$s", 'kind' => 'triples', 'shard' => $s, 'nshards' => $sh, 'weight' => 8, 'bound' => "every ordered triple of $n values: transitivity of the implementation's own answers"];
        for ($s = 0; $s < $sh; $s++) $jobs[] = ['name' => "arrays-$s", 'kind' => 'arrays', 'L' => 3, 'shard' => $s, 'nshards' => $sh, 'weight' => 8, 'bound' => 'every pair of arrays of at most 3 entries over 7 keys and 5 values'];
        for ($s = 0; $s < $sh; $s++) $jobs[] = ['name' => "strings-$s", 'kind' => 'strings', 'L' => $th ? 5 : 4, 'shard' => $s, 'nshards' => $sh, 'weight' => 8, 'bound' => 'every pair of strings of at most ' . ($th ? 5 : 4) . ' bytes over {0x00, 0x31, 0x61, 0x80, 0xff}'];
        for ($s = 0; $s < $sh; $s++) $jobs[] = ['name' => "keyorders-$s", 'kind' => 'keyorders', 'L' => $th ? 5 : 4, 'shard' => $s, 'nshards' => $sh, 'weight' => 8, 'bound' => 'every pair of arrays whose keys are any ordered selection of ' . ($th ? 5 : 4) . ' of 5 keys, values following the key, the position, or neither'];
        $jobs[] = ['name' => 'longarrays', 'kind' => 'longarrays', 'weight' => 6, 'bound' => 'arrays of 1..40 entries, int and string keys, against every rotation, transposition, single-key and single-value change and truncation of them; strings of the same lengths likewise'];
        $jobs[] = ['name' => 'numbers', 'kind' => 'numbers', 'weight' => 8, 'bound' => 'every pair of ints and floats around every power of two from 2^0 to 2^64, with neighbours'];
        return $jobs;
    },
    'run' => function ($job) {
        $sg = static fn($x) => $x <=> 0;
        $pair = static function ($a, $b, $na, $nb) use ($sg) {
            $r = Teds\stable_compare($a, $b); $w = mcmp($a, $b); St::$transitions++; St::$traces++;
            if ($sg($r) !== $w) throw new Violation("stable_compare($na, $nb) is $r, expected sign $w");
            St::outcome(m_rank($a) . '/' . m_rank($b) . '/' . $w);
        };
        switch ($job['kind']) {
            case 'pairs': $u = universe(true); foreach ($u as [$na, $a]) foreach ($u as [$nb, $b]) Cases::run([$na, $nb], static function () use ($pair, $a, $b, $na, $nb) {
                    $ra = repr($a); $rb = repr($b); $pair($a, $b, $na, $nb); $x = &$a; $pair($x, $b, "ref $na", $nb); if (repr($a) !== $ra || repr($b) !== $rb) throw new Violation('an argument was changed');
                    if ((Teds\stable_compare($a, $b) === 0) !== (mcmp($a, $b) === 0)) throw new Violation('zero'); }); St::$states += count($u); break;
            case 'triples': $u = universe(true); $n = count($u); $m = []; foreach ($u as $i => [$_, $a]) foreach ($u as $j => [$_, $b]) $m[$i][$j] = $sg(Teds\stable_compare($a, $b));
                for ($i = 0; $i < $n; $i++) { if ($i % $job['nshards'] !== $job['shard'] && Cases::$only === null) continue; Cases::run([$u[$i][0]], static function () use ($i, $n, $m, $u) {
                    for ($j = 0; $j < $n; $j++) { if ($m[$i][$j] !== -$m[$j][$i]) throw new Violation("not antisymmetric: {$u[$i][0]}, {$u[$j][0]}");
                        if ($m[$i][$j] <= 0) for ($k = 0; $k < $n; $k++) { if ($m[$j][$k] > 0) continue; $w = $m[$i][$j] === 0 && $m[$j][$k] === 0 ? 0 : -1; if ($m[$i][$k] !== $w) throw new Violation("not transitive: {$u[$i][0]} {$m[$i][$j]} {$u[$j][0]} {$m[$j][$k]} {$u[$k][0]} but {$m[$i][$k]}"); St::$transitions++; } } }); }
                St::$states += $n; break;
            case 'arrays': $ks = [0, 1, -1, PHP_INT_MIN, 'a', 'b', 'aa']; $vs = [0, 1, null, 'a', [0]]; $all = [[]]; $cur = [[]];
                for ($l = 0; $l < $job['L']; $l++) { $nx = []; foreach ($cur as $a) foreach ($ks as $k) if (!array_key_exists($k, $a)) foreach ($l < 2 ? $vs : [0, 1] as $v) { $b = $a; $b[$k] = $v; $nx[] = $b; } $cur = $nx; if ($l === 2) $cur = array_values(array_filter($cur, fn($a, $i) => $i % 7 === 0, ARRAY_FILTER_USE_BOTH)); $all = [...$all, ...$cur]; }
                foreach ($all as $i => $a) { if ($i % $job['nshards'] !== $job['shard'] && Cases::$only === null) continue; Cases::run($i, static function () use ($a, $all, $sg) { foreach ($all as $b) { if ($sg(Teds\stable_compare($a, $b)) !== mcmp($a, $b)) throw new Violation('stable_compare(' . json_encode($a) . ', ' . json_encode($b) . ') is ' . Teds\stable_compare($a, $b)); } St::$transitions += count($all); }); } St::$states += count($all); break;
            case 'keyorders': $all = array_orders($job['L']);
                foreach ($all as $i => $a) { if ($i % $job['nshards'] !== $job['shard'] && Cases::$only === null) continue; Cases::run($i, static function () use ($a, $all, $pair) { foreach ($all as $b) if (count($a) === count($b)) { $pair($a, $b, json_encode($a), json_encode($b)); $pair([1, $a], [1, $b], 'nested ' . json_encode($a), json_encode($b)); } }); }
                St::$states += count($all); break;
            case 'longarrays': for ($n = 1; $n <= 40; $n++) foreach (ARRAY_SHAPES as $shape) Cases::run([$n, $shape], static function () use ($n, $shape, $pair) {
                    $alts = array_alts($n, $shape); $base = $alts[0];
                    foreach ($alts as $b) { $pair($base, $b, json_encode($base), json_encode($b)); $pair($b, $base, json_encode($b), json_encode($base)); }
                    St::$states += count($alts); });
                break;
            case 'strings': $all = ['']; $cur = ['']; for ($l = 0; $l < $job['L']; $l++) { $nx = []; foreach ($cur as $s) foreach (["\0", '1', 'a', "\x80", "\xff"] as $ch) $nx[] = $s . $ch; $cur = $nx; $all = [...$all, ...$nx]; }
                foreach ($all as $i => $a) { if ($i % $job['nshards'] !== $job['shard'] && Cases::$only === null) continue; Cases::run(bin2hex($a), static function () use ($a, $all, $sg) { foreach ($all as $b) if ($sg(Teds\stable_compare($a, $b)) !== mcmp($a, $b)) throw new Violation('strings ' . bin2hex($a) . ' ' . bin2hex($b)); St::$transitions += count($all); }); } St::$states += count($all); break;
            case 'numbers': $v = [0, 0.0, -0.0, NAN, INF, -INF]; for ($e = 0; $e < 63; $e++) foreach ([1, -1] as $s) foreach ([-1, 0, 1] as $d) { $v[] = $s * (1 << $e) + $d; $v[] = (float)($s * (1 << $e) + $d); if ($d) $v[] = $s * (1 << $e) + $d * 0.5; }
                foreach ([PHP_INT_MAX, PHP_INT_MIN, 9223372036854774784.0, 9223372036854775808.0, -9223372036854775808.0, -9223372036854777856.0, 1.8446744073709552e19] as $x) $v[] = $x;
                foreach ($v as $i => $a) Cases::run($i, static function () use ($a, $v, $sg) { foreach ($v as $b) if ($sg(Teds\stable_compare($a, $b)) !== mcmp($a, $b)) throw new Violation('stable_compare(' . var_export($a, true) . ', ' . var_export($b, true) . ') is ' . Teds\stable_compare($a, $b) . ', expected ' . mcmp($a, $b)); St::$transitions += count($v); }); St::$states += count($v); break;
        }
    },
];
