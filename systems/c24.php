<?php
require_once __DIR__ . '/../lib/scale.php';
require_once __DIR__ . '/../lib/uni.php';
/* Every class, every content up to the length over an alphabet of easily confused values, every way of constructing: all read views. */
function c24_alpha(string $c, bool $big): array {
    return match ($c) {
        'IntVector', 'SortedIntVectorSet', 'ImmutableSortedIntSet' => $big ? ['i0', 'i1', 'i-1', 'i127', 'i128', 'i-129', 'i32768', 'i-32769', 'i2147483648', 'i-2147483649', 'M', 'm'] : ['i0', 'i-1', 'i128', 'i-40000', 'i3000000000', 'm'],
        'BitVector' => ['T', 'F'],
        'ImmutableSortedStringSet' => $big ? ['s', 's0', 'sa', 'sA', 'sab', 'b00', 'bff', 'b6100', 's' . str_repeat('x', 130)] : ['s', 's0', 'sa', 'sab', 'b00', 'bff'],
        'LowMemoryVector' => $big ? ['N', 'F', 'T', 'i0', 'i1', 'i300', 'i-70000', 'M', 'd0', 'd1.5', 'I', 's', 's0', 's1', [], ['i1'], 'o1'] : ['N', 'F', 'i0', 'i300', 'i70000', 'd1.5', 's0', ['i1'], 'o1'],
        default => $big ? ['N', 'F', 'T', 'i0', 'i1', 'd0', 'd1.5', 'I', 's', 's0', 's1', 'sabc', [], ['i1'], 'o1', 'M'] : ['N', 'F', 'i0', 'd1.5', 's', 's0', ['i1'], 'o1'],
    };
}
return [
    'jobs' => function ($tier) {
        $th = $tier === 'thorough'; $jobs = [];
        foreach (Uni::KIND as $c => $k) {
            $L = $c === 'BitVector' ? ($th ? 10 : 6) : ($th ? 3 : 2);
            $sh = $th ? 8 : 1;
            for ($s = 0; $s < $sh; $s++) $jobs[] = ['name' => "views-$c-$s", 'cls' => $c, 'len' => $L, 'big' => true, 'ways' => 'two', 'shard' => $s, 'nshards' => $sh, 'weight' => 5, 'bound' => "every content of at most $L entries over the alphabet (all pairs of alphabet values as entries for key-value classes), every read view"];
            $jobs[] = ['name' => "ways-$c", 'cls' => $c, 'len' => $c === 'BitVector' ? 4 : ($th ? 3 : 2), 'big' => false, 'ways' => 'all', 'shard' => 0, 'nshards' => 1, 'weight' => 8, 'bound' => 'smaller alphabet, every way of constructing'];
            $jobs[] = ['name' => "sizes-$c", 'cls' => $c, 'sizes' => $th ? range(0, 70) : [0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33], 'weight' => 6, 'bound' => 'sizes around every growth boundary, every way of constructing, then every single mutating operation, all views after it'];
        }
        return [...$jobs, ...Scale::jobs(array_keys(Uni::KIND), 'views', $tier)];
    },
    'run' => function ($job) {
        if (($job['kind'] ?? '') === 'scale') { Scale::run($job); return; }
       
        $c = $job['cls'];
        if (isset($job['sizes'])) {
            foreach ($job['sizes'] as $n) foreach (Uni::ways($c) as $w) Cases::run([$n, $w], function () use ($c, $n, $w) {
                $e = Uni::sample($c, $n); $m = Uni::model($c, $e);
                Uni::views(Uni::make($c, $e, $w), $m); St::$states++; St::$traces++;
                if ($n > 17) return;
                $k = 0; $mk = static function () use ($c, &$k) { $x = Uni::sample($c, 1, 40 + $k++)[0]; return Uni::pairy($c) ? $x[0] : $x; };
                foreach (Uni::ops($c, $m, $mk) as $op) {
                    $o = Uni::make($c, $e, $w); [$exp, $m2] = Uni::apply($c, $m, $op);
                    Uni::cmp($exp, Uni::exec($o, $op), json_encode($op, JSON_PARTIAL_OUTPUT_ON_ERROR)); Uni::views($o, $m2);
                    St::$transitions++; St::$traces++; St::outcome($c . ' ' . $op[0]);
                }
            });
            return;
        }
        $al = c24_alpha($c, $job['big']);
        if (Uni::pairy($c)) { // entries: every key with a few values, every value with a few keys
            $al2 = []; foreach ($al as $a) { $al2[] = [$a, 's0']; $al2[] = [$a, 'N']; $al2[] = ['i0', $a]; } $al = array_values(array_unique($al2, SORT_REGULAR));
            if ($job['big'] && $job['len'] >= 3) $al = array_slice($al, 0, 24);
        }
        $seqs = [[]]; $all = [[]];
        for ($l = 0; $l < $job['len']; $l++) { $nx = []; foreach ($seqs as $s) foreach ($al as $a) $nx[] = [...$s, $a]; $seqs = $nx; foreach ($nx as $s) $all[] = $s; }
        $ways = $job['ways'] === 'all' ? Uni::ways($c) : array_slice(Uni::ways($c), 0, 2);
        $i = 0;
        foreach ($all as $s) {
            if ($i++ % $job['nshards'] !== $job['shard']) continue;
            foreach ($ways as $w) Cases::run([$s, $w], function () use ($c, $s, $w) {
                $x = new Ctx; $e = $x->vs($s);
                if (Uni::kind($c) === 'heap' || $w !== 'ctor' || true) { if ($w === 'unser') foreach ($s as $t) if (str_contains(json_encode($t), 'o1')) return; }
                Uni::views(Uni::make($c, $e, $w), Uni::model($c, $e));
                St::$states++; St::$traces++; St::$transitions++; St::outcome("$c $w");
                if (St::$states % 211 === 3) St::sample([$c, $w, $s]);
            });
        }
    },
];
