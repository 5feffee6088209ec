<?php
/* Large collections: element numbers are ids; id order equals key order, so the reference model stays a native PHP array and sizes well beyond every
 * growth, shrink and integer-width threshold can be enumerated (size x construction order x way x kind of element x position x operation). */
require_once __DIR__ . '/uni.php';
final class Scale {
    const KINDS = ['IntVector' => ['i8', 'i16', 'i32', 'i64'], 'SortedIntVectorSet' => ['i16', 'i32', 'i64'], 'ImmutableSortedIntSet' => ['i16', 'i32', 'i64'], 'BitVector' => ['bit'], 'ImmutableSortedStringSet' => ['str', 'len'], 'LowMemoryVector' => ['i8', 'i16', 'i32', 'i64', 'bool', 'float', 'str']];
    public static function kinds(string $c): array { return self::KINDS[$c] ?? ['int', 'str', 'float', 'arr', ...(Uni::sorted($c) || str_contains($c, 'Heap') ? [] : ['obj'])]; }
    private static function kindsN(string $c, int $n): array { $k = self::kinds($c); return $n > 5000 ? array_slice($k, 0, 1) : ($n > 2000 ? array_slice($k, 0, 2) : $k); }
    private static array $objs = [];
    /* the element number i (strictly increasing in i for sorted classes) */
    public static function el(string $k, int $i) {
        switch ($k) {
            case 'int': return $i + 10000000;
            case 'i8': return ($i * 7 + 3) % 251 - 125;
            case 'i16': return $i * 3 - 32000 + ($i > 10000 ? 0 : 0);
            case 'i32': return $i * 60000 - 2000000000 + 0;
            case 'i64': return $i * 100000000000 - 4000000000000000;
            case 'bit': case 'bool': return (($i * $i + ($i >> 3)) % 5) < 2;
            case 'float': return $i + 0.5;
            case 'str': return 'k' . str_pad((string)$i, 7, '0', STR_PAD_LEFT);
            case 'len': return str_pad((string)$i, 7, '0', STR_PAD_LEFT) . str_repeat('a', $i % 300);
            case 'arr': return [$i, 'x'];
            case 'obj': return self::$objs[$i] ??= new Obj($i);
        }
        throw new HarnessError("element kind $k");
    }
    public static function order(string $o, int $n): array {
        $r = $n ? range(0, $n - 1) : [];
        switch ($o) {
            case 'desc': return array_reverse($r);
            case 'zig': $z = []; for ($i = 0, $j = $n - 1; $i <= $j; $i++, $j--) { $z[] = $i; if ($i !== $j) $z[] = $j; } return $z;
            case 'stride': $z = []; for ($s = 0; $s < 7; $s++) for ($i = $s; $i < $n; $i += 7) $z[] = $i; return $z;
            case 'dup': $z = []; foreach ($r as $i) { $z[] = $i; if ($i % 3 === 0) $z[] = intdiv($i, 2); } return $z;
        }
        return $r;
    }
    public static function positions(int $n): array {
        $p = [0, 1, 2, 3, $n >> 2, ($n >> 1) - 1, $n >> 1, ($n >> 1) + 1, $n - ($n >> 2), $n - 3, $n - 2, $n - 1];
        foreach ([8, 16, 32, 64, 128, 256, 512, 1024, 4096, 32768, 65536] as $b) array_push($p, $b - 1, $b, $b + 1);
        $p = array_values(array_unique(array_filter($p, fn($x) => $x >= 0 && $x < $n))); sort($p); return $p;
    }
    /* ids (content is doubled ids, so that odd ids are gaps) -> collection entries */
    public static function entries(string $c, string $k, array $ids): array { $r = []; $p = Uni::pairy($c); foreach ($ids as $i) $r[] = $p ? [self::el($k, 2 * $i), "v$i"] : self::el($k, 2 * $i); return $r; }
    /* model content: list of [id2, value] in order */
    public static function model(string $c, array $ids): array {
        $m = [];
        switch (Uni::KIND[$c]) {
            case 'seq': case 'pairs': foreach ($ids as $i) $m[] = [2 * $i, "v$i"]; return $m;
            case 'heap': sort($ids); if ($c === 'StrictMaxHeap') $ids = array_reverse($ids); foreach ($ids as $i) $m[] = [2 * $i, null]; return $m;
        }
        foreach ($ids as $i) { unset($x); $m[2 * $i] = [2 * $i, "v$i"]; }
        if (Uni::sorted($c)) ksort($m);
        return array_values($m);
    }
    public static function check($o, string $c, string $k, array $m, string $what, bool $members = true): void {
        $n = count($m); if (count($o) !== $n) throw new Violation("$what: count is " . count($o) . ", expected $n");
        $kind = Uni::KIND[$c]; $E = []; foreach ($m as [$i, $v]) $E[] = self::el($k, $i);
        if ($kind === 'heap') { $g = Uni::content($o); self::cmp($E, $g, "$what: drained", $k); }
        elseif (Uni::pairy($c)) {
            $V = array_column($m, 1); self::cmp($E, $o->keys(), "$what: keys", $k); self::cmp($V, $o->values(), "$what: values", $k);
            $a = $b = []; foreach ($o as $x => $y) { $a[] = $x; $b[] = $y; if (count($a) > $n) break; } self::cmp($E, $a, "$what: foreach keys", $k); self::cmp($V, $b, "$what: foreach values", $k);
        } else { self::cmp($E, $o->values(), "$what: values", $k); $b = []; foreach ($o as $y) { $b[] = $y; if (count($b) > $n) break; } self::cmp($E, $b, "$what: foreach", $k); }
        if (!$members) return;
        $P = self::positions($n);
        if ($kind === 'map') foreach ($P as $p) {
            [$i, $v] = $m[$p]; $key = self::el($k, $i); if (!$o->containsKey($key) || $o[$key] !== $v || $o->get($key) !== $v || !isset($o[$key])) throw new Violation("$what: lookup of element $p of $n");
            $miss = self::el($k, $i + 1); if ($i % 2 === 0 && !self::hasId($m, $i + 1) && ($o->containsKey($miss) || isset($o[$miss]) || $o->get($miss, 'no') !== 'no')) throw new Violation("$what: absent key next to element $p of $n was found");
        } elseif ($kind === 'set') foreach ($P as $p) {
            [$i] = $m[$p]; if (!$o->contains(self::el($k, $i))) throw new Violation("$what: contains(element $p of $n)"); if ($i % 2 === 0 && !self::hasId($m, $i + 1) && $o->contains(self::el($k, $i + 1))) throw new Violation("$what: contains(absent neighbour of $p of $n)");
        } elseif ($kind === 'pairs') foreach ($P as $p) { if (!same($o->keyAt($p), $E[$p]) || $o->valueAt($p) !== $m[$p][1]) throw new Violation("$what: entry $p of $n"); if (!$o->containsKey($E[$p]) || !$o->containsValue($m[$p][1]) || !$o->contains($m[$p][1])) throw new Violation("$what: search of entry $p of $n");
            $f = $o->indexOfKey($E[$p]); $g = $o->indexOfValue($m[$p][1]); if ($f === null || $f > $p || !same($E[$f], $E[$p]) || $g === null || $g > $p || !same($m[$g][1], $m[$p][1])) throw new Violation("$what: position of entry $p of $n"); }
        elseif ($kind === 'seq') foreach ($P as $p) { if (!same($o[$p], $E[$p]) || !same($o->get($p), $E[$p]) || !isset($o[$p]) === ($E[$p] !== null) ) throw new Violation("$what: element $p of $n"); if ($c === 'BitVector') continue; $f = $o->indexOf($E[$p]); if ($f === null || $f > $p || !same($E[$f], $E[$p]) || !$o->contains($E[$p])) throw new Violation("$what: indexOf of element $p of $n"); if (in_array($k, ['int', 'str', 'float', 'i16', 'i32', 'i64', 'obj', 'arr']) && $f !== $p) throw new Violation("$what: indexOf of element $p of $n gave $f"); }
        if ($n && in_array($c, ['StrictTreeMap', 'StrictTreeSet', 'StrictSortedVectorMap', 'StrictSortedVectorSet'])) {
            if (Uni::pairy($c)) { if (!same($o->bottomKey(), $E[0]) || !same($o->topKey(), $E[$n - 1]) || !same($o->bottom(), $m[0][1]) || !same($o->top(), $m[$n - 1][1])) throw new Violation("$what: ends"); }
            elseif (!same($o->bottom(), $E[0]) || !same($o->top(), $E[$n - 1])) throw new Violation("$what: ends");
        }
    }
    private static function hasId(array $m, int $id): bool { foreach ($m as $e) if ($e[0] === $id) return true; return false; }
    private static function cmp(array $e, $g, string $what, string $k): void {
        if ($e === $g) return;
        foreach ($e as $i => $x) if (!array_key_exists($i, $g) || !same($x, $g[$i])) throw new Violation("$what: position $i of " . count($e) . ': expected ' . show($x) . ' got ' . (array_key_exists($i, $g) ? show($g[$i]) : 'nothing'));
        throw new Violation("$what: " . count($g) . ' elements, expected ' . count($e));
    }
    public static function idx(array $m, int $id): ?int { foreach ($m as $p => $e) if ($e[0] === $id) return $p; return null; }
    /* one operation on both */
    public static function step($o, string $c, string $k, array &$m, array $op): void {
        St::$transitions++; [$name, $a] = [$op[0], $op[1] ?? null]; $n = count($m); $sorted = Uni::sorted($c); $kind = Uni::KIND[$c];
        $key = is_int($a) ? self::el($k, $a) : null; $bad = static function ($g) use ($op, $n) { throw new Violation('size ' . $n . ', ' . json_encode($op) . ' returned ' . show($g)); };
        switch ($name) {
            case 'add': // map put / set add / heap add
                $p = $kind === 'heap' ? null : self::idx($m, $a);
                if ($kind === 'map') { $o[$key] = $op[2]; if ($p !== null) $m[$p][1] = $op[2]; else self::ins($m, [$a, $op[2]], $sorted, false); }
                else { $g = $o->add($key); if ($kind === 'set' && $g !== ($p === null)) $bad($g); if ($p === null) self::ins($m, [$a, null], $sorted || $kind === 'heap', $c === 'StrictMaxHeap'); }
                return;
            case 'del':
                $p = self::idx($m, $a); if ($kind === 'map') unset($o[$key]); else { $g = $o->remove($key); if ($g !== ($p !== null) && $c !== 'SortedIntVectorSet') $bad($g); }
                if ($p !== null) array_splice($m, $p, 1); return;
            case 'pop': $e = array_pop($m); $g = $o->pop(); if (!same($g, $kind === 'map' || $kind === 'pairs' ? [self::el($k, $e[0]), $e[1]] : self::el($k, $e[0]))) $bad($g); return;
            case 'shift': $e = array_shift($m); $g = $o->shift(); if (!same($g, $kind === 'map' ? [self::el($k, $e[0]), $e[1]] : self::el($k, $e[0]))) $bad($g); return;
            case 'extract': $e = array_shift($m); $g = $o->extract(); if (!same($g, self::el($k, $e[0]))) $bad($g); return;
            case 'push': $m[] = [$a, $op[2]]; $o->push($key, $op[2]); return;
            case 'setv': $m[$a][1] = $op[2]; $o->setValueAt($a, $op[2]); return;
            case 'setk': $m[$a][0] = $op[2]; $o->setKeyAt($a, self::el($k, $op[2])); return;
        }
        throw new HarnessError($name);
    }
    private static function ins(array &$m, array $e, bool $sorted, bool $desc): void {
        if (!$sorted) { $m[] = $e; return; }
        $lo = 0; $hi = count($m); while ($lo < $hi) { $mid = ($lo + $hi) >> 1; if ($desc ? $m[$mid][0] >= $e[0] : $m[$mid][0] <= $e[0]) $lo = $mid + 1; else $hi = $mid; }
        array_splice($m, $lo, 0, [$e]);
    }
    public static function build(string $c, string $k, array $ids, string $way) { return Uni::make($c, self::entries($c, $k, $ids), $way); }
    /* ---- jobs ---- */
    public static function jobs(array $classes, string $mode, string $tier, array $sizes = null): array {
        $th = $tier === 'thorough'; $jobs = [];
        $sizes ??= $th ? [[65, 66, 96, 97, 127, 128, 129, 130, 192, 193], [254, 255, 256, 257, 258, 300], [511, 512, 513, 767, 768], [1023, 1024, 1025, 1026], [4095, 4096, 4097], [65535, 65536, 65537]] : [[65, 97, 128, 129], [255, 256, 257], [512, 513], [1025], [4097], ...($mode === 'ops' || $mode === 'copy' ? [[65537]] : [])];
        foreach ($classes as $c) foreach ($sizes as $ss) $jobs[] = ['name' => "scale-$mode-$c-{$ss[0]}", 'kind' => 'scale', 'smode' => $mode, 'cls' => $c, 'sizes' => $ss, 'th' => $th, 'weight' => 8 + intdiv($ss[0], 40), 'bound' => "sizes " . implode(',', $ss) . ": " . ['ops' => 'every construction order and way, then each operation at every boundary position, then drained and refilled in each direction', 'copy' => 'every copying route, then changes on either side', 'views' => 'all read views', 'life' => 'liveness of every stored object after each operation', 'ctor' => 'every construction order and way', 'mem' => 'peak memory of every copying route'][$mode]] + ($mode === 'mem' ? ['mode' => 'zmm'] : []);
        return $jobs;
    }
    public static function run(array $job): void {
        $c = $job['cls'];
        foreach ($job['sizes'] as $n) { self::$objs = []; ([self::class, 'm_' . $job['smode']])($c, $n, $job['th']); St::sample([$c, $job['mode'], $n]); }
    }
    private static function ways(string $c, int $n): array { return $n > 2000 ? [Uni::pairy($c) ? 'pairs' : 'ctor', 'gen'] : array_values(array_diff(Uni::ways($c), ['agg'])); }
    private static function orders(string $c, int $n): array { if (in_array(Uni::KIND[$c], ['seq', 'pairs'])) return ['asc']; return $n > 5000 ? ['asc', 'stride'] : ['asc', 'desc', 'zig', 'stride', 'dup']; }
    public static function m_ctor(string $c, int $n, bool $th): void {
        foreach (self::kindsN($c, $n) as $k) foreach (self::orders($c, $n) as $or) foreach (self::ways($c, $n) as $w) if ($k !== 'obj' || $w !== 'unser') Cases::run([$n, $k, $or, $w], static function () use ($c, $n, $k, $or, $w) {
            $ids = self::order($or, $n); $o = self::build($c, $k, $ids, $w); $m = self::model($c, $ids); St::$traces++; St::$states++; St::$distinct++; self::check($o, $c, $k, $m, "built from $n ids ($or, $w, $k)"); St::outcome("$c $or $w");
        });
    }
    public static function m_ops(string $c, int $n, bool $th): void {
        self::m_ctor($c, $n, $th);
        $kind = Uni::KIND[$c]; $kinds = self::kindsN($c, $n);
        foreach ($kinds as $k) foreach ($n > 5000 ? ['asc'] : ['asc', 'stride'] as $or) {
            $P = self::positions($n); $fresh = $n <= 130;
            foreach ($kind === 'heap' ? ['add', 'extract'] : ($kind === 'pairs' ? ['setk', 'setv'] : ['readd', 'gap', 'del2']) as $op) foreach ($fresh ? array_map(fn($p) => [$p], $P) : [$P] as $chain) Cases::run([$n, $k, $or, $op, $chain], static function () use ($c, $n, $k, $or, $op, $chain, $kind) {
                $ids = self::order($or, $n); $o = self::build($c, $k, $ids, 'std'); $m = self::model($c, $ids); St::$traces++; St::$states++; St::$distinct++;
                foreach ($chain as $p) {
                    if ($p >= count($m)) break;
                    switch ($op) {
                        case 'readd': $id = $m[$p][0]; self::step($o, $c, $k, $m, ['add', $id, "w$p"]); self::step($o, $c, $k, $m, ['del', $id]); self::step($o, $c, $k, $m, ['del', $id]); if ($n < 5000) self::check($o, $c, $k, $m, "after removing position $p of $n", count($chain) === 1); self::step($o, $c, $k, $m, ['add', $id, "x$p"]); break;
                        case 'gap': self::step($o, $c, $k, $m, ['add', 2 * $p + 1, "n$p"]); break;
                        case 'del2': self::step($o, $c, $k, $m, ['del', $m[$p][0]]); if (isset($m[$p])) self::step($o, $c, $k, $m, ['del', $m[$p][0]]); break;
                        case 'add': self::step($o, $c, $k, $m, ['add', 2 * $p + 1]); break;
                        case 'extract': for ($i = 0; $i < 3 && $m; $i++) self::step($o, $c, $k, $m, ['extract']); self::step($o, $c, $k, $m, ['add', 2 * $p + 1]); break;
                        case 'setk': self::step($o, $c, $k, $m, ['setk', $p, 2 * $n + $p]); break;
                        case 'setv': self::step($o, $c, $k, $m, ['setv', $p, "z$p"]); break;
                    }
                    if ($n < 5000) self::check($o, $c, $k, $m, "after $op at $p of $n", count($chain) === 1);
                }
                self::check($o, $c, $k, $m, "after $op at boundary positions of $n"); St::outcome("$c $op");
            });
            // drain in each direction, checking at boundary sizes, then refill
            $dirs = match ($kind) { 'map', 'set' => [...($c === 'StrictHashMap' || $c === 'StrictHashSet' ? [] : ['pop', ...($c === 'SortedIntVectorSet' ? [] : ['shift'])]), 'delf', 'delb', 'delalt', 'delstride'], 'heap' => ['extract'], default => ['pop', 'size'] };
            if ($n <= 5000) foreach ($dirs as $dir) Cases::run([$n, $k, $or, 'drain', $dir], static function () use ($c, $n, $k, $or, $dir, $kind) {
                $ids = self::order($or, $n); $o = self::build($c, $k, $ids, 'one'); $m = self::model($c, $ids); St::$traces++; St::$states++;
                $at = array_flip([...array_map(fn($x) => $x, self::positions($n)), 0]);
                $seq = match ($dir) { 'delf' => array_column($m, 0), 'delb' => array_reverse(array_column($m, 0)), 'delalt' => array_map(fn($i) => $m[$i][0], self::order('zig', $n)), 'delstride' => array_map(fn($i) => $m[$i][0], self::order('stride', $n)), default => [] };
                if ($dir === 'size') { foreach (array_reverse(self::positions($n)) as $s) { $o->setSize($s); $m = array_slice($m, 0, $s); self::check($o, $c, $k, $m, "after setSize($s)"); if ($s > 1) { $o->setSize($s + 2); if ($o->count() !== $s + 2 || $o->keyAt($s + 1) !== null || $o->valueAt($s) !== null) throw new Violation("growing by setSize from $s"); $o->setSize($s); } } }
                else for ($i = 0; $i < $n; $i++) { self::step($o, $c, $k, $m, $seq ? ['del', $seq[$i]] : [$dir]); if (isset($at[count($m)])) self::check($o, $c, $k, $m, "draining ($dir) to " . count($m)); }
                if (!$o->isEmpty() && $dir !== 'size') throw new Violation("not empty after draining by $dir");
                $m = $dir === 'size' ? $m : []; $b = $n > 600 ? 600 : $n; for ($i = 0; $i < $b; $i++) { $id = 2 * (($i * 5) % ($b + 3)) ; if ($kind === 'pairs') self::step($o, $c, $k, $m, ['push', $id, "r$i"]); else self::step($o, $c, $k, $m, ['add', $id, "r$i"]); }
                self::check($o, $c, $k, $m, "refilled after draining by $dir"); St::outcome("$c drain $dir");
            });
        }
    }
    public static function m_copy(string $c, int $n, bool $th): void {
        foreach (self::kindsN($c, $n) as $k) foreach (self::orders($c, $n) as $or) if ($or === 'asc' || $or === 'zig') foreach (['unser', 'state', 'clone', 'cloneclone', 'own'] as $r) {
            if ($c === 'CachedIterable' && str_starts_with($r, 'clone')) continue; if ($r === 'own' && !method_exists("Teds\\$c", 'serialize')) continue; if ($k === 'obj' && ($r === 'unser' || $r === 'own')) continue;
            Cases::run([$n, $k, $or, $r], static function () use ($c, $n, $k, $or, $r) {
                $ids = self::order($or, $n); $o = self::build($c, $k, $ids, Uni::pairy($c) ? 'pairs' : 'ctor'); $m = self::model($c, $ids); St::$traces++; St::$states++; $q = "Teds\\$c";
                $d = match ($r) { 'unser' => unserialize(serialize($o)), 'state' => $q::__set_state(Uni::KIND[$c] === 'heap' ? array_values((array)$o->values()) : (Uni::pairy($c) ? $o->toPairs() : $o->values())), 'clone' => clone $o, 'cloneclone' => clone (clone $o), 'own' => $q::unserialize($o->serialize()) };
                self::check($d, $c, $k, $m, "$r of $n"); self::check($o, $c, $k, $m, "original after $r", false);
                if (in_array($c, Uni::MUTABLE)) { // change both differently
                    $x = Uni::pairy($c) ? [self::el($k, 2 * $n + 8), 'new'] : self::el($k, 2 * $n + 8); Uni::insertOne($c, $d, $x); self::check($o, $c, $k, $m, "original after adding to the $r");
                    $y = count($d); if ($y !== count($m) + 1) throw new Violation("copy has $y elements after an addition"); $c1 = Uni::content($d); $o->clear(); if (count($d) !== $y) throw new Violation('copy emptied with the original'); if ($c1 != Uni::content($d)) throw new Violation('copy changed with the original'); foreach (array_slice($ids, 0, 5) as $i) Uni::insertOne($c, $o, self::entries($c, $k, [$i])[0]); if (count($o) !== count(self::model($c, array_slice($ids, 0, 5)))) throw new Violation('original after reuse');
                    $d->clear(); if (count($d)) throw new Violation('clear of the copy');
                }
                St::$transitions += 4; St::outcome("$c $r");
            });
        }
    }
    public static function m_views(string $c, int $n, bool $th): void {
        foreach (self::kindsN($c, $n) as $k) foreach ($n > 600 ? ['std'] : self::ways($c, $n) as $w) if ($k !== 'obj' || $w !== 'unser') Cases::run([$n, $k, $w], static function () use ($c, $n, $k, $w) {
            $ids = self::order('asc', $n); $o = self::build($c, $k, $ids, $w); $m = self::model($c, $ids); St::$traces++; St::$states++; St::$transitions++; self::check($o, $c, $k, $m, "$n by $w");
            if (Uni::KIND[$c] === 'heap') return;
            $E = array_map(fn($e) => self::el($k, $e[0]), $m); $V = Uni::pairy($c) ? array_column($m, 1) : $E;
            if (Uni::pairy($c)) self::cmp(array_map(null, $E, $V), $o->toPairs(), 'toPairs', $k);
            if ($k !== 'obj' && $k !== 'arr' && $k !== 'float') { $j = json_decode(json_encode($o->values()), true); self::cmp($V, $j, 'json of values', $k); $j = json_decode(json_encode($o)); if (is_array($j)) self::cmp(Uni::pairy($c) ? $j : $V, $j, 'json', $k); }
            $it = $o->getIterator(); for ($i = 0; $it->valid(); $i++, $it->next()) { if ($i >= $n || !same($it->current(), $V[$i])) throw new Violation("getIterator current() at $i of $n"); $kk = $it->key(); if (Uni::pairy($c) && !same($kk, $E[$i])) throw new Violation("getIterator key() at $i of $n"); if (Uni::KIND[$c] === 'seq' && $kk !== $i) throw new Violation("getIterator key() at $i of $n is " . show($kk)); } if ($i !== $n) throw new Violation("getIterator stops at $i of $n");
            if (!Uni::pairy($c)) { $i = 0; foreach ($o as $kk => $x) { if (Uni::KIND[$c] === 'seq' && $kk !== $i) throw new Violation("foreach key $i"); $i++; } }
            if (method_exists($o, 'toArray') && $k !== 'obj' && $k !== 'arr' && $k !== 'float') { $a = $o->toArray(); if (count($a) !== count($m)) throw new Violation('toArray count'); if (!Uni::pairy($c)) self::cmp($V, array_values($a), 'toArray', $k); }
            if (method_exists($o, 'map')) { $x = $o->map(static fn($v) => $v); self::cmp($V, $x->values(), 'map', $k); $x = $o->filter(static fn($v) => true); self::cmp($V, $x->values(), 'filter', $k); }
            if (method_exists($o, 'first') && $n) { if (!same($o->first(), $V[0]) || !same($o->last(), $V[$n - 1])) throw new Violation('first/last'); }
            self::check($o, $c, $k, $m, "$n after reading", false); St::outcome("$c $w");
        });
    }
    /* every stored object is held by the collection alone: alive = stored, after every operation */
    public static function m_life(string $c, int $n, bool $th): void {
        $pairy = Uni::pairy($c); $mut = in_array($c, Uni::MUTABLE); $q = "Teds\\$c"; $kind = Uni::KIND[$c];
        $ways = array_values(array_diff($n > 2000 ? self::ways($c, $n) : Uni::ways($c), ['churn', 'front', 'unser', 'agg']));
        $acts = ['destroy', 'clone', ...($kind === 'heap' ? [] : ['iter']), 'values', 'cycle']; if ($mut) $acts = [...$acts, 'clear', 'drain', 'half', 'overwrite', 'refill'];
        foreach ($ways as $w) foreach ($pairy ? ['val', 'key', 'both'] : ['val'] as $where) foreach ($acts as $act) {
            if ($act === 'clone' && $c === 'CachedIterable') continue;
            Cases::run([$n, $w, $where, $act], static function () use ($c, $n, $w, $where, $act, $pairy, $kind, $mut, $q) {
                $base = ScaleObj::$alive; $per = $where === 'both' ? 2 : 1; $i = 0;
                $mk = static function () use (&$i, $pairy, $where) { $i++; return $pairy ? [$where === 'val' ? "k$i" : new ScaleObj, $where === 'key' ? "v$i" : new ScaleObj] : new ScaleObj; };
                $al = static function (int $want, string $what) use ($base) { $g = ScaleObj::$alive - $base; if ($g !== $want) throw new Violation("$what: $g objects alive, $want stored"); };
                $o = Uni::make($c, array_map(static fn($x) => $mk(), array_fill(0, $n, 0)), $w); St::$traces++; St::$states++; St::$transitions++;
                if ($c === 'CachedIterable') { foreach ($o as $_k => $_x); unset($_k, $_x); }
                $al($n * $per, 'built');
                switch ($act) {
                    case 'clone': $d = clone $o; $al($n * $per, 'cloned'); unset($o); $al($n * $per, 'clone, original gone'); $o = $d; unset($d); break;
                    case 'iter': $it = $o->getIterator(); for ($j = 0; $j < $n >> 1; $j++) { $it->current(); $it->next(); } unset($o); $al($n * $per, 'held by its iterator'); $o = $it; unset($it); break;
                    case 'values': if ($kind === 'heap') $v = iterator_to_array(clone $o, false); else $v = $pairy ? $o->toPairs() : $o->values(); unset($o); $al($n * $per, 'held by exported array'); $o = $v; unset($v); break;
                    case 'cycle': if ($pairy) { $v = $o->toPairs(); foreach ($v as [$x, $y]) { if (is_object($x)) $x->link = $o; if (is_object($y)) $y->link = $o; } unset($v, $x, $y); } else { $v = $kind === 'heap' ? iterator_to_array(clone $o, false) : $o->values(); foreach ($v as $x) $x->link = $o; unset($v, $x); } gc_collect_cycles(); $al($n * $per, 'live cycle collected'); unset($o); gc_collect_cycles(); $o = 0; break;
                    case 'clear': $o->clear(); $al(0, 'cleared'); break;
                    case 'drain': case 'half': $ks = []; for ($j = 0; $j < ($act === 'half' ? $n >> 1 : $n); $j++) { self::removeOne($o, $c, $kind, $ks); if ($act !== 'drain' || $where === 'val' && $kind === 'map' || !str_contains($c, 'Hash')) if ($j % 16 === 0 || $j > $n - 4) $al(($n - $j - 1) * $per, "after $j removals"); } unset($ks); if ($act === 'drain') $al(0, 'drained'); break;
                    case 'overwrite': if ($kind === 'seq') foreach (self::positions($n) as $p) { $o[$p] = $mk(); $al($n, "overwrote $p"); } elseif ($kind === 'pairs') foreach (self::positions($n) as $p) { $o->setValueAt($p, 0); $o->setKeyAt($p, "k"); } elseif ($kind === 'map') { $ks = $o->keys(); foreach (self::positions($n) as $p) { $o[$ks[$p]] = 5; } if ($where === 'val') $al($n - count(self::positions($n)), 'overwritten'); unset($ks); } break;
                    case 'refill': $ks = []; for ($j = 0; $j < $n >> 2; $j++) self::removeOne($o, $c, $kind, $ks); unset($ks); $x = count($o); for ($j = 0; $j < $n; $j++) Uni::insertOne($c, $o, $mk()); $al(($x + $n) * $per, 'refilled'); break;
                }
                unset($o); $al(0, "$act, then destroyed"); St::outcome("$c $act");
            });
        }
    }
    /* a copy needs memory in proportion to the content (a clone that asks for n times more ends the process for moderate n) */
    public static function m_mem(string $c, int $n, bool $th): void {
        foreach (self::kindsN($c, $n) as $k) foreach (['clone', 'unser', 'map', 'values', 'state'] as $r) Cases::run([$n, $k, $r], static function () use ($c, $n, $k, $r) {
            $q = "Teds\\$c"; if ($r === 'map' && !method_exists($q, 'map') || $k === 'obj' || $r === 'clone' && $c === 'CachedIterable') return;
            $e = self::entries($c, $k, self::order('asc', $n)); $m0 = memory_get_usage(); $o = Uni::make($c, $e, Uni::pairy($c) ? 'pairs' : 'ctor'); $size = memory_get_usage() - $m0;
            $room = 65536 + 8 * ($size + 32 * $n) + ($r === 'clone' ? 0 : 64 * $n); $l = $r === 'unser' ? serialize($o) : null; $st = $r === 'state' ? (Uni::pairy($c) ? $o->toPairs() : $o->values()) : null;
            memory_reset_peak_usage(); $m0 = memory_get_usage();
            $d = match ($r) { 'clone' => clone $o, 'unser' => unserialize($l), 'map' => $o->map(static fn($x) => $x), 'values' => $o->values(), 'state' => $q::__set_state($st) };
            $peak = memory_get_peak_usage() - $m0; if ($peak > $room) throw new Violation("$r of $n entries ($size bytes) asked for $peak bytes");
            if (count($d) !== count($o)) throw new Violation("$r of $n"); St::$traces++; St::$states++; St::$transitions++; St::outcome("$c $r");
        });
    }
    private static function removeOne($o, string $c, string $kind, array &$ks = []): void {
        if ($kind === 'heap') { $o->extract(); return; }
        if ($c === 'StrictHashMap' || $c === 'StrictHashSet') { if (!$ks) { $ks = $c === 'StrictHashMap' ? $o->keys() : $o->values(); $ks = array_reverse($ks); } $k = array_pop($ks); if ($c === 'StrictHashMap') unset($o[$k]); else $o->remove($k); return; }
        $o->pop();
    }
}
final class ScaleObj { public static int $alive = 0; public $link; public function __construct() { self::$alive++; } public function __destruct() { self::$alive--; } }
