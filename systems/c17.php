<?php
require_once __DIR__ . '/../lib/values.php';
/* binary_search: every sorted array within the bounds, every layout of its keys, every target, every comparer; the comparer's calls are observed and faulted. */
function c17_layouts(array $vals): array {
    $n = count($vals); $r = ['packed' => $vals];
    $h = []; foreach ($vals as $i => $v) { $h[$i * 2] = $v; $h[$i * 2 + 1] = 'DEL'; } for ($i = 0; $i < $n; $i++) unset($h[$i * 2 + 1]); $r['holes'] = $h;             // packed with holes between
    $f = ['DEL', 'DEL']; foreach ($vals as $v) $f[] = $v; unset($f[0], $f[1]); $r['headhole'] = $f;
    $t = $vals; $t[] = 'DEL'; unset($t[$n]); $r['tailhole'] = $t;
    $s = []; foreach ($vals as $i => $v) $s[chr(97 + $i)] = $v; $r['string'] = $s;
    $sh = ['x' => 1]; foreach ($vals as $i => $v) { $sh["k$i"] = $v; $sh["d$i"] = 'DEL'; } unset($sh['x']); foreach ($vals as $i => $v) unset($sh["d$i"]); $r['hashholes'] = $sh;
    $m = []; foreach ($vals as $i => $v) $m[$i % 2 ? "s$i" : -100 + $i] = $v; $r['mixed'] = $m;
    $q = []; $tmp = $vals; foreach ($tmp as $i => $v) $q[$i] = &$tmp[$i]; $r['refs'] = $q;
    return $r;
}
function c17_check(array $arr, $target, ?callable $cmp, bool $useKey, callable $model, string $what): void {
    $log = []; $wrapped = $cmp === null ? null : static function ($a, $b) use ($cmp, &$log) { $log[] = [$a, $b]; return $cmp($a, $b); };
    $before = repr($arr); $g = outcome(static fn() => Teds\binary_search($arr, $target, $wrapped, $useKey));
    if ($g[0] !== 'r' || !is_array($g[1])) throw new Violation("$what: " . show($g));
    $r = $g[1]; expect(['found', 'value', 'key'], array_values(array_intersect(['found', 'value', 'key'], array_keys($r))), "$what: result keys"); expect(3, count($r), "$what: result size");
    $best = null; $found = false; // acceptable positions: any equal entry, else any entry tied with the largest smaller one
    $ents = []; foreach ($arr as $k => $v) $ents[] = [$k, $v];
    foreach ($ents as [$k, $v]) { $c = $model($target, $useKey ? $k : $v); if ($c === 0) $found = true; }
    expect($found, $r['found'], "$what: found");
    $ok = false;
    if (!$found) { $last = null; foreach ($ents as [$k, $v]) if ($model($target, $useKey ? $k : $v) > 0) $last = [$k, $v];
        if ($last === null) { $ok = $r['value'] === null && $r['key'] === null; }
        else foreach ($ents as [$k, $v]) if ($model($useKey ? $k : $v, $useKey ? $last[0] : $last[1]) === 0 && same($k, $r['key']) && same($v, $r['value'])) $ok = true;
    } else foreach ($ents as [$k, $v]) if ($model($target, $useKey ? $k : $v) === 0 && same($k, $r['key']) && same($v, $r['value'])) $ok = true;
    if (!$ok) throw new Violation("$what: returned " . show($r));
    foreach ($log as [$a, $b]) { if (!same($a, $target)) throw new Violation("$what: comparer got " . show($a) . ' as the target'); $in = false; foreach ($ents as [$k, $v]) if (same($useKey ? $k : $v, $b)) $in = true; if (!$in) throw new Violation("$what: comparer got " . show($b) . ', which is not in the array'); }
    if (repr($arr) !== $before) throw new Violation("$what: the array was changed");
    St::$transitions++; St::outcome(($found ? 'found' : ($r['key'] === null ? 'none' : 'below')) . ($useKey ? ' key' : ' value'));
    // faults: the comparer throws at each of its calls
    for ($j = 0, $n = count($log); $cmp !== null && $j < $n; $j++) { $i = 0; $th = static function ($a, $b) use ($cmp, &$i, $j) { if ($i++ === $j) throw new Boom; return $cmp($a, $b); }; expect_outcome(X('Boom'), outcome(static fn() => Teds\binary_search($arr, $target, $th, $useKey)), "$what: comparer throwing at call $j"); if ($i !== $j + 1) throw new Violation("$what: comparer called again after it threw"); St::$transitions++; }
}
return [
    'jobs' => function ($tier) {
        $th = $tier === 'thorough'; $jobs = []; $sh = 8;
        for ($s = 0; $s < $sh; $s++) $jobs[] = ['name' => "ints-$s", 'kind' => 'ints', 'L' => $th ? 9 : 7, 'shard' => $s, 'nshards' => $sh, 'weight' => 10, 'bound' => 'every sorted list of at most ' . ($th ? 9 : 7) . ' ints of {1,3,5,7} with repeats, 8 array layouts (packed, holes at head/middle/tail, string, mixed keys, references), targets 0..8, 5 comparers (default, ascending, huge-magnitude results, non-int results, descending), the comparer throwing at every call'];
        for ($s = 0; $s < $sh; $s++) $jobs[] = ['name' => "keys-$s", 'kind' => 'keys', 'L' => $th ? 9 : 7, 'shard' => $s, 'nshards' => $sh, 'weight' => 10, 'bound' => 'every subset of ' . ($th ? 9 : 7) . ' int (or string) keys in ascending order, searched by key, with and without comparer'];
        for ($s = 0; $s < $sh; $s++) $jobs[] = ['name' => "types-$s", 'kind' => 'types', 'shard' => $s, 'nshards' => $sh, 'weight' => 5, 'bound' => 'every sorted triple of a universe of values of all types, ordered by stable_compare, every value as target'];
        $jobs[] = ['name' => 'sizes', 'kind' => 'sizes', 'max' => $th ? 260 : 70, 'weight' => 6, 'bound' => 'arrays of every size, every element and gap as target, three layouts'];
        for ($s = 0; $s < 4; $s++) $jobs[] = ['name' => "gaps-$s", 'kind' => 'gaps', 'L' => $th ? 11 : 9, 'shard' => $s, 'nshards' => 4, 'weight' => 8, 'bound' => 'every subset of ' . ($th ? 11 : 9) . ' slots left after unsetting the others, in list, string-key and mixed-key arrays, by value and by key, every element and gap as target'];
        return $jobs;
    },
    'run' => function ($job) {
        $cmps = ['default' => null, 'asc' => static fn($a, $b) => $a <=> $b, 'huge' => static fn($a, $b) => ($a <=> $b) * PHP_INT_MAX, 'shift' => static fn($a, $b) => ($a <=> $b) * (1 << 32), 'str' => static fn($a, $b) => (string)($a <=> $b), 'desc' => static fn($a, $b) => $b <=> $a];
        $sign = static fn($c) => static fn($a, $b) => (int)(($c ?? static fn($x, $y) => $x <=> $y)($a, $b)) <=> 0;
        switch ($job['kind']) {
            case 'ints': $seqs = []; $gen = static function ($p) use (&$gen, &$seqs, $job) { $seqs[] = $p; if (count($p) < $job['L']) foreach ([1, 3, 5, 7] as $v) if (!$p || $v >= end($p)) $gen([...$p, $v]); }; $gen([]);
                foreach ($seqs as $i => $sq) { if ($i % $job['nshards'] !== $job['shard'] && Cases::$only === null) continue; foreach ($cmps as $cn => $c) Cases::run([$sq, $cn], static function () use ($sq, $c, $cn, $sign) {
                    $vals = $cn === 'desc' ? array_reverse($sq) : $sq; foreach (c17_layouts($vals) as $ln => $arr) { if (count($sq) > 5 && !in_array($ln, ['packed', 'holes', 'string', 'headhole'])) continue; for ($t = 0; $t <= 8; $t++) c17_check($arr, $t, $c, false, $sign($c), "binary_search($ln " . json_encode($arr) . ", $t, $cn)"); } St::$states++; St::$traces++; }); } break;
            case 'keys': $L = $job['L']; for ($mask = 0; $mask < 1 << $L; $mask++) { if ($mask % $job['nshards'] !== $job['shard'] && Cases::$only === null) continue; foreach (['int', 'neg', 'str', 'big'] as $kind) foreach (['default', 'asc', 'huge'] as $cn) Cases::run([$mask, $kind, $cn], static function () use ($mask, $kind, $cn, $cmps, $sign, $L) {
                    $key = match ($kind) { 'int' => static fn($i) => $i * 2, 'neg' => static fn($i) => $i * 2 - 7, 'str' => static fn($i) => 'k' . chr(98 + $i * 2), 'big' => static fn($i) => $i * (1 << 58) };
                    $arr = []; for ($i = 0; $i < $L; $i++) if ($mask >> $i & 1) $arr[$key($i)] = "v$i"; $del = $arr; $del['zzz'] = 1; unset($del['zzz']);
                    $ts = []; for ($i = 0; $i < $L; $i++) { $k = $key($i); $ts[] = $k; $ts[] = is_int($k) ? $k - 1 : 'k' . chr(97 + $i * 2); } $ts[] = is_int($key(0)) ? $key($L - 1) + 1 : 'kz'; $ts[] = is_int($key(0)) ? PHP_INT_MIN : '';
                    foreach ([$arr, $del] as $a) foreach ($ts as $t) c17_check($a, $t, $cmps[$cn], true, $sign($cmps[$cn]), "binary_search by key $kind $mask target " . show($t)); St::$states++; St::$traces++; }); } break;
            case 'types': $u = array_column(universe(false), 1); usort($u, 'mcmp'); $n = count($u); for ($i = 0; $i < $n; $i++) for ($j = $i; $j < $n; $j += 3) { if ($i % $job['nshards'] !== $job['shard'] && Cases::$only === null) continue; Cases::run([$i, $j], static function () use ($u, $i, $j, $n) {
                    foreach ([[$u[$i]], [$u[$i], $u[$j]], [$u[$i], $u[$j], $u[$n - 1]], [$u[0], $u[$i], $u[$j]]] as $arr) foreach ($u as $t) c17_check($arr, $t, 'Teds\stable_compare', false, 'mcmp', 'binary_search(' . show($arr) . ', ' . show($t) . ')'); St::$states++; }); } break;
            case 'gaps': $L = $job['L']; for ($mask = 0; $mask < 1 << $L; $mask++) { if ($mask % $job['nshards'] !== $job['shard'] && Cases::$only === null) continue; Cases::run($mask, static function () use ($mask, $L, $cmps, $sign) {
                    foreach (['packed' => static fn($i) => $i, 'string' => static fn($i) => chr(98 + 2 * $i), 'neg' => static fn($i) => $i - 4] as $ln => $key) foreach (['default', 'asc'] as $cn) { $arr = []; for ($i = 0; $i < $L; $i++) $arr[$key($i)] = $i * 2; for ($i = 0; $i < $L; $i++) if (!($mask >> $i & 1)) unset($arr[$key($i)]);
                        for ($t = -1; $t <= 2 * $L; $t += $cn === 'default' ? 1 : 2) c17_check($arr, $t, $cmps[$cn], false, $sign($cmps[$cn]), "binary_search in slots $mask of $L ($ln), target $t");
                        if ($cn === 'default') for ($i = 0; $i < $L; $i++) c17_check($arr, $key($i), null, true, $sign(null), "binary_search by key in slots $mask of $L ($ln), target slot $i"); } St::$states++; St::$traces++; }); } break;
            case 'sizes': for ($n = 0; $n <= $job['max']; $n++) Cases::run($n, static function () use ($n, $cmps, $sign) { $v = []; for ($i = 0; $i < $n; $i++) $v[] = $i * 2; $lay = c17_layouts($v); foreach (['packed', 'holes', 'headhole'] as $l) for ($t = -1; $t <= $n * 2; $t++) { $g = Teds\binary_search($lay[$l], $t); $w = $t < 0 ? null : $t - $t % 2; if ($w !== null && $w >= $n * 2) $w = $n ? $n * 2 - 2 : null; if ($t >= $n * 2 && $n) $w = $n * 2 - 2; expect($n > 0 && $t >= 0 && $t % 2 === 0 && $t < $n * 2, $g['found'], "found $t in $n ($l)"); expect($n ? $w : null, $g['value'], "value for $t in $n ($l)"); expect($n && $w !== null ? array_search($w, $lay[$l], true) : null, $g['key'], "key for $t in $n ($l)"); St::$transitions++; } St::$states++; }); break;
        }
    },
];
