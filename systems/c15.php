<?php
require_once __DIR__ . '/../lib/values.php';
function c15_uniq_model(array $l): array { $r = []; foreach ($l as $x) { foreach ($r as $y) if (meq($x, $y)) continue 2; $r[] = $x; } return $r; }
return [
    'jobs' => function ($tier) {
        $th = $tier === 'thorough'; $jobs = []; $n = count(universe(true)); $sh = $th ? 16 : 4;
        $jobs[] = ['name' => 'pairs', 'kind' => 'pairs', 'weight' => 6, 'bound' => "every ordered pair of $n values: strict_equals against ===-with-NAN, equal hashes for equal values, in every representation (packed/hash arrays, references, interned/dynamic strings)"];
        $jobs[] = ['name' => 'nested', 'kind' => 'nested', 'weight' => 6, 'bound' => "every ordered pair of $n values wrapped in 4 array shapes, by value and by reference"];
        for ($s = 0; $s < $sh; $s++) $jobs[] = ['name' => "keyorders-$s", 'kind' => 'keyorders', 'L' => $th ? 5 : 4, 'shard' => $s, 'nshards' => $sh, 'weight' => 8, 'bound' => 'every pair of arrays whose keys are any ordered selection of 2..' . ($th ? 5 : 4) . ' of 5 keys'];
        $jobs[] = ['name' => 'longarrays', 'kind' => 'longarrays', 'weight' => 6, 'bound' => 'arrays and strings of 1..40 entries against every rotation, transposition, single-key and single-value change and truncation'];
        $jobs[] = ['name' => 'cycles', 'kind' => 'cycles', 'weight' => 2, 'bound' => 'arrays containing themselves at depth 1..6, hashing terminates and is repeatable'];
        for ($s = 0; $s < $sh; $s++) $jobs[] = ['name' => "unique-$s", 'kind' => 'unique', 'L' => $th ? 4 : 3, 'step' => 1, 'shard' => $s, 'nshards' => $sh, 'weight' => 10, 'bound' => 'unique_values of every list of at most 3 of ' . $n . ' values, from an array and from a generator'];
        $jobs[] = ['name' => 'unique-sizes', 'kind' => 'usizes', 'max' => $th ? 200 : 80, 'weight' => 4, 'bound' => 'lists of n distinct values, then each one repeated; n from 0 through several table sizes, colliding and non-colliding values'];
        return $jobs;
    },
    'run' => function ($job) {
        switch ($job['kind']) {
            case 'pairs': $u = universe(true); foreach ($u as [$na, $a]) foreach ($u as [$nb, $b]) Cases::run([$na, $nb], static function () use ($a, $b, $na, $nb) {
                    $w = meq($a, $b); $ra = repr($a); St::outcome($w ? 'equal' : 'different');
                    expect($w, Teds\strict_equals($a, $b), "strict_equals($na, $nb)"); $ha = Teds\strict_hash($a); $hb = Teds\strict_hash($b);
                    if ($w && $ha !== $hb) throw new Violation("equal values $na and $nb have different hashes"); expect($ha, Teds\strict_hash($a), 'hash repeated'); $x = &$a; expect($ha, Teds\strict_hash($x), 'hash of a reference'); expect($w, Teds\strict_equals($x, $b), 'equality through a reference');
                    if (is_object($a) && is_object($b) && $a !== $b && $ha === $hb) throw new Violation("different objects $na and $nb have the same hash");
                    if (repr($a) !== $ra) throw new Violation('an argument was changed'); St::$transitions++; St::$traces++; }); St::$states += count($u); break;
            case 'nested': $u = universe(true); foreach ($u as [$na, $a]) foreach ($u as [$nb, $b]) Cases::run([$na, $nb], static function () use ($a, $b, $na, $nb) {
                    $w = meq($a, $b); $r = $b; $sh = [[[$a], [$b]], [['k' => $a], ['k' => $b]], [[0, [$a]], [0, [$b]]], [[5 => $a, 'x' => 1], [5 => $b, 'x' => 1]], [[$a], [&$r]], [['k' => [&$r]], ['k' => [$a]]]];
                    foreach ($sh as $i => [$p, $q]) { expect($w, Teds\strict_equals($p, $q), "strict_equals of $na, $nb in array shape $i"); if ($w && Teds\strict_hash($p) !== Teds\strict_hash($q)) throw new Violation("arrays of equal values $na, $nb have different hashes (shape $i)"); St::$transitions++; }
                    $h = ['z' => 0, 0 => $b]; unset($h['z']); expect($w, Teds\strict_equals([$a], $h), "packed and hash array of $na, $nb"); if ($w && Teds\strict_hash([$a]) !== Teds\strict_hash($h)) throw new Violation("packed and hash array of $na, $nb hash differently"); St::$traces++; }); St::$states += count($u); break;
            case 'keyorders': case 'longarrays':
                $pair = static function ($a, $b, $what = null) { $w = meq($a, $b); $r = Teds\strict_equals($a, $b); if ($r !== $w) throw new Violation('strict_equals(' . json_encode($a) . ', ' . json_encode($b) . ') is ' . var_export($r, true)); if ($w && Teds\strict_hash($a) !== Teds\strict_hash($b)) throw new Violation('equal values with different hashes: ' . json_encode($a)); St::$transitions++; St::outcome($w ? 'equal' : 'different'); };
                if ($job['kind'] === 'keyorders') { $all = array_orders($job['L']); foreach ($all as $i => $a) { if ($i % $job['nshards'] !== $job['shard'] && Cases::$only === null) continue; Cases::run($i, static function () use ($a, $all, $pair) { foreach ($all as $b) if (count($a) === count($b)) { $pair($a, $b); $pair([$a], [$b]); } St::$traces++; }); } St::$states += count($all); break; }
                for ($n = 1; $n <= 40; $n++) foreach (ARRAY_SHAPES as $shape) Cases::run([$n, $shape], static function () use ($n, $shape, $pair) {
                    $alts = array_alts($n, $shape); $base = $alts[0]; foreach ($alts as $b) { $pair($base, $b); $pair($b, $base); if (is_array($b)) { $h = ['zz' => 0] + $b; unset($h['zz']); $pair($b, $h); $pair($h, $b); } }
                    if ($n <= 7 || $n === 16) expect(c15_uniq_model($alts), Teds\unique_values($alts), 'unique_values of the variants'); St::$states += count($alts); St::$traces++; });
                break;
            case 'cycles': for ($d = 1; $d <= 6; $d++) for ($pre = 0; $pre < 3; $pre++) Cases::run([$d, $pre], static function () use ($d, $pre) { $a = array_fill(0, $pre, 7); $cur = &$a; for ($i = 1; $i < $d; $i++) { $cur['n'] = [$i]; $cur = &$cur['n']; } $cur['n'] = &$a; $h = Teds\strict_hash($a); expect($h, Teds\strict_hash($a), 'hash of a cyclic array'); $s = new Teds\StrictHashSet([1, 2]); expect(false, in_array($h, [null], true), 'x'); St::$states++; St::$transitions += 2; unset($cur); $a = null; gc_collect_cycles(); }); break;
            case 'unique': $u = universe(true); $v = []; foreach ($u as $i => $p) if ($i % $job['step'] === 0 || in_array($p[0], ['NAN', '-NAN', '0.0', '-0.0', '[NAN]', '[1,2]', '[1,2]hash', '[1,2]ref', '"ab"', '"ab"dyn'])) $v[] = $p; $n = count($v);
                for ($i = 0; $i < $n; $i++) { if ($i % $job['nshards'] !== $job['shard'] && Cases::$only === null) continue; for ($j = -1; $j < $n; $j++) Cases::run([$v[$i][0], $j < 0 ? null : $v[$j][0]], static function () use ($i, $j, $n, $v) {
                    for ($k = -1; $k < ($j < 0 ? 0 : $n); $k++) { $l = [$v[$i][1]]; if ($j >= 0) $l[] = $v[$j][1]; if ($k >= 0) $l[] = $v[$k][1]; $w = c15_uniq_model($l); $s = $v[$i][0] . ($j >= 0 ? ', ' . $v[$j][0] : '') . ($k >= 0 ? ', ' . $v[$k][0] : '');
                        expect($w, Teds\unique_values($l), "unique_values([$s])"); if ($k < 3) { expect($w, Teds\unique_values((static function () use ($l) { foreach ($l as $x) yield 'k' => $x; })()), "unique_values(generator of $s)"); $z = ['q' => &$l[0]] + $l; expect($w, Teds\unique_values($z), "unique_values with a reference and string key, $s"); }
                        if ($k < 3) { foreach ([0, count($l) - 1] as $rp) { $a = $l; $var = $a[$rp]; unset($a[$rp]); $a = $rp === 0 ? [0 => &$var] + $a : $a + [$rp => &$var]; $in = [0, 1, 2]; foreach ([$a, array_reverse($a), [...$a]] as $q) { $w2 = c15_uniq_model($q); $u = Teds\unique_values($q); expect($w2, $u, "unique_values of $s with a reference at $rp"); $old = $var; $var = 'changed'; expect($w2, $u, "result of unique_values of $s after the referenced variable changed"); $var = $old; $u[0] = 'mine'; if ($var !== $old && $old === $old) throw new Violation("writing to the result of unique_values of $s changed the caller's variable"); } unset($var, $a, $q); } }
                        if ($k < 3) {  $l = array_map(static fn($x) => $x, $l); $h = $l; $h[] = 'gone'; $h[] = 'gone'; unset($h[count($l)], $h[count($l) + 1]); $g = ['k' => 0] + $l; unset($g['k']); foreach ([$l, $h, $g, [9 => $l[0]] + array_slice($l, 1), new Teds\Vector($l)] as $q) { $u = Teds\unique_values($q); expect(is_array($q) && isset($q[9]) ? c15_uniq_model([...$q]) : $w, $u, "unique_values of $s"); expect_list($u, "unique_values of $s"); } unset($h, $g, $q, $u); }
                        St::$transitions++; } St::$traces++; }); } St::$states += $n; break;
            case 'usizes': for ($n = 0; $n <= $job['max']; $n++) foreach (['int', 'str', 'coll', 'arr'] as $kind) Cases::run([$n, $kind], static function () use ($n, $kind) {
                    $f = match ($kind) { 'int' => static fn($i) => $i, 'str' => static fn($i) => "s$i", 'coll' => static fn($i) => $i << 32, 'arr' => static fn($i) => [$i, [NAN]] }; $l = []; for ($i = 0; $i < $n; $i++) $l[] = $f($i);
                    $w = $l; expect($w, Teds\unique_values($l), "$n distinct"); foreach ([static fn() => (static fn() => yield from $l)(), static fn() => new ArrayIterator($l), static fn() => new Teds\Vector($l), static fn() => new Teds\ImmutableSequence($l)] as $mk) { $got = Teds\unique_values($mk()); expect($w, $got, "$n distinct, traversed"); expect_list($got, "unique_values of $n traversed"); } $h = $l; $h[] = 'gone'; array_splice($h, -1); expect_list(Teds\unique_values($h), "unique_values of $n"); $h[] = 'gone'; unset($h[$n]); expect($w, Teds\unique_values($h), "$n distinct"); expect_list(Teds\unique_values($h), "unique_values of $n with the last element unset"); for ($i = 0; $i < $n; $i += max(1, intdiv($n, 9))) { $m = $l; array_splice($m, $i, 0, [$f($i)]); $m[] = $f($n - 1 - $i); expect($w, Teds\unique_values($m), "$n distinct with repeats at $i"); St::$transitions++; } expect(array_reverse($w), Teds\unique_values([...array_reverse($l), ...$l]), 'repeated list'); St::$states++; St::$traces++; }); break;
        }
    },
];
