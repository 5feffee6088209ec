<?php
/* One description of every collection class: construction, content, mutating operations with their model, read views. */
require_once __DIR__ . '/model.php';

final class Uni {
    const KIND = ['Vector' => 'seq', 'Deque' => 'seq', 'IntVector' => 'seq', 'LowMemoryVector' => 'seq', 'BitVector' => 'seq', 'ImmutableSequence' => 'seq',
        'StrictHashMap' => 'map', 'StrictTreeMap' => 'map', 'StrictSortedVectorMap' => 'map',
        'StrictHashSet' => 'set', 'StrictTreeSet' => 'set', 'StrictSortedVectorSet' => 'set', 'SortedIntVectorSet' => 'set', 'ImmutableSortedIntSet' => 'set', 'ImmutableSortedStringSet' => 'set',
        'StrictMinHeap' => 'heap', 'StrictMaxHeap' => 'heap',
        'MutableIterable' => 'pairs', 'ImmutableIterable' => 'pairs', 'CachedIterable' => 'pairs'];
    const MUTABLE = ['Vector', 'Deque', 'IntVector', 'LowMemoryVector', 'BitVector', 'StrictHashMap', 'StrictTreeMap', 'StrictSortedVectorMap', 'StrictHashSet', 'StrictTreeSet',
        'StrictSortedVectorSet', 'SortedIntVectorSet', 'StrictMinHeap', 'StrictMaxHeap', 'MutableIterable'];
    const IMMUTABLE = ['ImmutableSequence', 'ImmutableSortedIntSet', 'ImmutableSortedStringSet', 'ImmutableIterable', 'CachedIterable'];
    const ANYVALUE = ['Vector', 'Deque', 'LowMemoryVector', 'ImmutableSequence', 'StrictHashMap', 'StrictTreeMap', 'StrictSortedVectorMap', 'StrictHashSet', 'StrictTreeSet',
        'StrictSortedVectorSet', 'StrictMinHeap', 'StrictMaxHeap', 'MutableIterable', 'ImmutableIterable', 'CachedIterable'];
    public static function kind(string $c): string { return self::KIND[$c]; }
    public static function pairy(string $c): bool { return in_array(self::KIND[$c], ['map', 'pairs']); }
    public static function sorted(string $c): bool { return str_contains($c, 'Sorted') || str_contains($c, 'Tree'); }
    public static function accepts(string $c, $v): bool {
        return match ($c) { 'IntVector', 'SortedIntVectorSet', 'ImmutableSortedIntSet' => is_int($v), 'BitVector' => is_bool($v), 'ImmutableSortedStringSet' => is_string($v), default => true };
    }
    public static function cls($o): string { return substr(get_class($o), 5); }
    /* n distinct entries the class accepts (pairs for pair classes) */
    public static function sample(string $c, int $n, int $seed = 0): array {
        $r = [];
        for ($i = 0; $i < $n; $i++) {
            $j = $i + $seed;
            $x = match ($c) {
                'IntVector', 'SortedIntVectorSet', 'ImmutableSortedIntSet' => [3, -7, 300, 70000, -5000000000, 1, 128][$j % 7] + intdiv($j, 7) * 1000003,
                'BitVector' => (bool)((0b1101001 >> ($j % 7)) & 1),
                'ImmutableSortedStringSet' => ['b', '', 'aa', "c\0d", 'a', 'zz', "\xff"][$j % 7] . ($j >= 7 ? intdiv($j, 7) : ''),
                default => [7, 'k', 2.5, ['x' => 1], null, true, 'longer string', -1, '7', []][$j % 10],
            };
            if ($c !== 'BitVector' && $j >= 10 && self::accepts('Vector', $x) && !is_int($x) && $c !== 'ImmutableSortedStringSet') $x = "g$j";
            elseif ($j >= 10 && in_array($c, self::ANYVALUE)) $x = is_int($x) ? 1000 + $j : "g$j";
            $r[] = self::pairy($c) ? [$x, "v$j"] : $x;
        }
        return $r;
    }
    /* expected content of a collection built from these entries */
    public static function model(string $c, array $e): array {
        switch (self::KIND[$c]) {
            case 'seq': case 'pairs': return array_values($e);
            case 'heap': $s = $c === 'StrictMinHeap' ? 1 : -1; usort($e, fn($a, $b) => mcmp($a, $b) * $s); return $e;
            case 'map': $r = []; foreach ($e as [$k, $v]) $r = self::put($c, $r, $k, $v); return $r;
            case 'set': $r = []; foreach ($e as $k) $r = self::add($c, $r, $k); return $r;
        }
    }
    public static function eq(string $c, $a, $b): bool { return self::sorted($c) ? mcmp($a, $b) === 0 : meq($a, $b); }
    public static function findKey(string $c, array $m, $k): ?int { foreach ($m as $i => $p) if (self::eq($c, $p[0], $k)) return $i; return null; }
    public static function findVal(string $c, array $m, $k): ?int { foreach ($m as $i => $p) if (self::eq($c, $p, $k)) return $i; return null; }
    public static function put(string $c, array $m, $k, $v): array {
        $i = self::findKey($c, $m, $k);
        if ($i !== null) { $m[$i][1] = $v; return $m; }
        $m[] = [$k, $v];
        if (self::sorted($c)) usort($m, fn($a, $b) => mcmp($a[0], $b[0]));
        return $m;
    }
    public static function add(string $c, array $m, $k): array {
        if (self::findVal($c, $m, $k) !== null) return $m;
        $m[] = $k;
        if (self::sorted($c)) usort($m, 'mcmp');
        return $m;
    }
    public static function ways(string $c): array {
        $w = ['ctor', 'gen', 'agg', 'setstate', 'unser', 'clone'];
        if ($c === 'CachedIterable') return ['gen', 'pairs', 'setstate', 'unser', 'agg'];
        if (in_array($c, ['MutableIterable', 'ImmutableIterable', 'StrictHashMap', 'StrictTreeMap', 'StrictSortedVectorMap'])) $w = ['pairs', 'pairsgen', ...array_slice($w, 1)];
        if (in_array($c, self::MUTABLE)) { $w[] = 'one'; $w[] = 'churn'; if (self::KIND[$c] !== 'heap' && $c !== 'MutableIterable') $w[] = 'front'; }
        if ($c === 'Deque') array_push($w, 'rot', 'rotb');
        return $w;
    }
    public static function make(string $c, array $e, string $way = 'std') {
        $q = "Teds\\$c"; $pairy = self::pairy($c);
        if ($way === 'std') $way = $pairy ? 'pairs' : 'ctor';
        switch ($way) {
            case 'ctor': return new $q($e);
            case 'gen': return new $q((static function () use ($e, $pairy) { foreach ($e as $x) if ($pairy) yield $x[0] => $x[1]; else yield 'same' => $x; })());
            case 'agg': return new $q(new UniAgg($e, $pairy));
            case 'pairs': return $q::fromPairs($e);
            case 'pairsgen': return $q::fromPairs(count($e) % 2 ? new UniIt($e, false) : (static function () use ($e) { yield from $e; })());
            case 'setstate': return $q::__set_state($e);
            case 'unser': return unserialize(serialize(self::make($c, $e)));
            case 'clone': $o = self::make($c, $e); return clone $o;
            case 'one': $o = new $q(); foreach ($e as $x) self::insertOne($c, $o, $x); return $o;
            case 'rot': $o = self::make($c, $e); for ($i = count($e); $i > 0; $i--) $o->push($o->popFront()); return $o;   // a wrapped ring
            case 'rotb': $o = self::make($c, $e); for ($i = count($e); $i > 0; $i--) $o->pushFront($o->pop()); return $o;
            case 'churn': $o = self::make($c, $e); $extra = self::sample($c, 3, 1000); foreach ($extra as $x) self::insertOne($c, $o, $x);
                if (self::KIND[$c] === 'heap') { $o->clear(); foreach ($e as $x) self::insertOne($c, $o, $x); }
                elseif (self::KIND[$c] === 'map') foreach ($extra as [$k]) unset($o[$k]);
                elseif (self::KIND[$c] === 'set') foreach ($extra as $k) $o->remove($k);
                else foreach ($extra as $k) $o->pop();
                return $o;
        }
        if ($way === 'front') { // entries removed from the front leave gaps, rotated rings, wide representations, spare capacity
            $o = new $q(); $extra = self::sample($c, 3, 1000); foreach ($extra as $x) self::insertOne($c, $o, $x); foreach ($e as $x) self::insertOne($c, $o, $x);
            if (self::KIND[$c] === 'map') foreach ($extra as [$k]) unset($o[$k]); elseif (self::KIND[$c] === 'set') foreach ($extra as $k) $o->remove($k); else foreach ($extra as $k) $o->popFront();
            return $o;
        }
        throw new HarnessError("way $way");
    }
    public static function insertOne(string $c, $o, $x): void {
        switch (self::KIND[$c]) {
            case 'seq': $o->push($x); break;
            case 'map': $o[$x[0]] = $x[1]; break;
            case 'pairs': $o->push($x[0], $x[1]); break;
            default: $o->add($x);
        }
    }
    /* the content, read in the most direct way */
    public static function content($o): array {
        $c = self::cls($o);
        switch (self::KIND[$c]) {
            case 'seq': case 'set': return $o->values();
            case 'map': case 'pairs': return $o->toPairs();
            case 'heap': $d = clone $o; $r = []; while (!$d->isEmpty()) { $r[] = $d->extract(); if (count($r) > 100000) throw new Violation('heap does not drain'); } return $r;
        }
    }
    public static function expectContent($o, array $m, string $what): void {
        $g = self::content($o);
        if (self::KIND[self::cls($o)] === 'heap') { // ties of the order may come out in any order
            if (count($g) === count($m)) { $ok = true; foreach ($g as $i => $x) if (mcmp($x, $m[$i]) !== 0) $ok = false; if ($ok) { $a = array_map('repr', $g); $b = array_map('repr', $m); sort($a); sort($b); if ($a === $b) return; } }
            throw new Violation("$what: content is " . show($g) . ', expected ' . show($m));
        }
        expect($m, $g, $what);
    }
    /* ---- mutating operations: name and arguments; x is a value source ---- */
    public static function ops(string $c, array $m, callable $fresh): array {
        $n = count($m); $r = [];
        $mut = in_array($c, self::MUTABLE);
        switch (self::KIND[$c]) {
            case 'seq':
                $r = [['push', $fresh()], ['push', $fresh(), $fresh()], ['push'], ['pushFront', $fresh()], ['pushFront', $fresh(), $fresh()], ['unshift', $fresh()], ['pop'], ['popFront'], ['shift'], ['append', $fresh()], ['clear']];
                foreach (array_unique([0, 1, intdiv($n, 2), max(0, $n - 1), $n, $n + 1, -1]) as $i) { $r[] = ['insert', $i, $fresh()]; $r[] = ['insert', $i, $fresh(), $fresh()]; $r[] = ['set', $i, $fresh()]; $r[] = ['aset', $i, $fresh()]; $r[] = ['unset', $i]; }
                if ($c === 'Vector' || $c === 'BitVector') foreach (array_unique([0, 1, max(0, $n - 1), $n, $n + 1, $n + 5]) as $s) $r[] = ['setSize', $s, $fresh()];
                if ($c === 'Vector') { $r[] = ['shrinkToFit']; $r[] = ['reserve', $n + 3]; }
                if ($c === 'IntVector') { $r[] = ['setInt', 0, $fresh()]; $r[] = ['pushInts', $fresh(), $fresh()]; }
                if ($c === 'BitVector') { $r[] = ['setBit', 0, $fresh()]; $r[] = ['pushBits', $fresh(), $fresh()]; }
                break;
            case 'map':
                $r = [['put', $fresh(), $fresh()], ['oset', $fresh(), $fresh()], ['clear'], ['append', $fresh()], ['del', $fresh()]];
                foreach (array_unique([0, intdiv($n, 2), $n - 1]) as $i) if (isset($m[$i])) { $r[] = ['put', $m[$i][0], $fresh()]; $r[] = ['del', $m[$i][0]]; $r[] = ['odel', $m[$i][0]]; }
                if ($c !== 'StrictHashMap') array_push($r, ['pop'], ['popFront'], ['shift']);
                break;
            case 'set':
                $r = [['add', $fresh()], ['remove', $fresh()], ['clear']];
                foreach (array_unique([0, intdiv($n, 2), $n - 1]) as $i) if (isset($m[$i])) { $r[] = ['add', $m[$i]]; $r[] = ['remove', $m[$i]]; }
                if ($mut && $c !== 'StrictHashSet') $r[] = ['pop'];
                if (in_array($c, ['StrictTreeSet', 'StrictSortedVectorSet'])) array_push($r, ['popFront'], ['shift']);
                break;
            case 'heap': $r = [['add', $fresh()], ['extract'], ['next'], ['clear']]; if ($n) $r[] = ['add', $m[0]]; break;
            case 'pairs':
                if (!$mut) { $r = [['clear']]; break; }
                $r = [['push', $fresh(), $fresh()], ['pop'], ['clear'], ['shrinkToFit']];
                foreach (array_unique([0, $n - 1, $n, -1]) as $i) { $r[] = ['setKeyAt', $i, $fresh()]; $r[] = ['setValueAt', $i, $fresh()]; }
                foreach (array_unique([0, 1, max(0, $n - 1), $n, $n + 3]) as $s) $r[] = ['setSize', $s];
        }
        return $r;
    }
    public static function exec($o, array $op): array {
        $f = $op[0]; $a = array_slice($op, 1); unset($op);
        return outcome(match ($f) {
            'append' => static function () use ($o, $a) { $o[] = $a[0]; },
            'aset', 'put' => static function () use ($o, $a) { $o[$a[0]] = $a[1]; },
            'oset' => static fn() => $o->offsetSet($a[0], $a[1]),
            'unset', 'del' => static function () use ($o, $a) { unset($o[$a[0]]); },
            'odel' => static fn() => $o->offsetUnset($a[0]),
            default => static fn() => $o->$f(...$a),
        });
    }
    /* [outcome, new content] */
    public static function apply(string $c, array $m, array $op): array {
        $n = count($m); $f = $op[0]; $a = array_slice($op, 1);
        if (!in_array($c, self::MUTABLE)) return [X('Teds\UnsupportedOperationException'), $m];
        switch (self::KIND[$c]) {
            case 'seq':
                $bad = fn($l) => array_filter($l, fn($x) => !self::accepts($c, $x)) !== [];
                switch ($f) {
                    case 'push': case 'pushInts': case 'pushBits': if ($bad($a)) return [X('TypeError'), $m]; return [R(), [...$m, ...$a]];
                    case 'append': if ($bad($a)) return [X('TypeError'), $m]; return [R(), [...$m, $a[0]]];
                    case 'pushFront': case 'unshift': if ($bad($a)) return [X('TypeError'), $m]; return [R(), [...array_reverse($a), ...$m]];
                    case 'pop': if (!$n) return [X('UnderflowException'), $m]; $x = array_pop($m); return [R($x), $m];
                    case 'popFront': case 'shift': if (!$n) return [X('UnderflowException'), $m]; $x = array_shift($m); return [R($x), $m];
                    case 'insert': $i = $a[0]; if ($i < 0 || $i > $n) return [X('OutOfBoundsException'), $m]; $l = array_slice($a, 1); if ($bad($l)) return [X('TypeError'), $m]; array_splice($m, $i, 0, array_map(fn($x) => $x, self::wrap($l))); return [R(), $m];
                    case 'set': case 'aset': case 'setInt': case 'setBit': $i = $a[0]; if ($i < 0 || $i >= $n) return [X($f === 'aset' && $c === 'Deque' ? 'RuntimeException|OutOfBoundsException' : 'OutOfBoundsException'), $m]; if ($bad([$a[1]])) return [X('TypeError'), $m]; $m[$i] = $a[1]; return [R(), $m];
                    case 'unset': $i = $a[0]; if ($i < 0 || $i >= $n) return [X('OutOfBoundsException'), $m]; array_splice($m, $i, 1); return [R(), $m];
                    case 'clear': return [R(), []];
                    case 'setSize': $s = $a[0]; $m = array_slice($m, 0, $s); while (count($m) < $s) $m[] = $a[1]; return [R(), $m];
                    case 'shrinkToFit': case 'reserve': return [R(), $m];
                }
                break;
            case 'map':
                switch ($f) {
                    case 'put': case 'oset': return [R(), self::put($c, $m, $a[0], $a[1])];
                    case 'append': return [X('RuntimeException'), $m];
                    case 'del': case 'odel': $i = self::findKey($c, $m, $a[0]); if ($i !== null) array_splice($m, $i, 1); return [R(), $m];
                    case 'pop': if (!$n) return [X('UnderflowException'), $m]; $x = array_pop($m); return [R($x), $m];
                    case 'popFront': case 'shift': if (!$n) return [X('UnderflowException'), $m]; $x = array_shift($m); return [R($x), $m];
                    case 'clear': return [R(), []];
                }
                break;
            case 'set':
                switch ($f) {
                    case 'add': if (!self::accepts($c, $a[0])) return [X('TypeError'), $m]; $r = self::add($c, $m, $a[0]); return [R(count($r) > $n), $r];
                    case 'remove': $i = self::findVal($c, $m, $a[0]); if ($i !== null) array_splice($m, $i, 1); return [$c === 'SortedIntVectorSet' ? ['any'] : R($i !== null), $m];
                    case 'pop': if (!$n) return [X('UnderflowException'), $m]; $x = array_pop($m); return [R($x), $m];
                    case 'popFront': case 'shift': if (!$n) return [X('UnderflowException'), $m]; $x = array_shift($m); return [R($x), $m];
                    case 'clear': return [R(), []];
                }
                break;
            case 'heap':
                switch ($f) {
                    case 'add': return [['any'], self::model($c, [...$m, $a[0]])];
                    case 'extract': if (!$n) return [X('UnderflowException'), $m]; $x = array_shift($m); return [R($x), $m];
                    case 'next': if (!$n) return [X('UnderflowException'), $m]; array_shift($m); return [R(), $m];
                    case 'clear': return [R(), []];
                }
                break;
            case 'pairs':
                switch ($f) {
                    case 'push': return [R(), [...$m, [$a[0], $a[1]]]];
                    case 'pop': if (!$n) return [X('UnderflowException'), $m]; $x = array_pop($m); return [R($x), $m];
                    case 'clear': return [R(), []];
                    case 'shrinkToFit': return [R(), $m];
                    case 'setSize': $m = array_slice($m, 0, $a[0]); while (count($m) < $a[0]) $m[] = [null, null]; return [R(), $m];
                    case 'setKeyAt': case 'setValueAt': $i = $a[0]; if ($i < 0 || $i >= $n) return [X('OutOfBoundsException'), $m]; $m[$i][$f === 'setKeyAt' ? 0 : 1] = $a[1]; return [R(), $m];
                }
        }
        throw new HarnessError("apply $c $f");
    }
    private static function wrap(array $l): array { $r = []; foreach ($l as $x) $r[] = is_array($x) ? $x : $x; return $r; }
    /* outcome equality; ['any'] accepts any normal return; alternatives of exception classes separated by | */
    public static function cmp(array $exp, array $got, string $what): void {
        if ($exp[0] === 'any') { if ($got[0] === 'x') throw new Violation("$what: unexpected {$got[1]}"); return; }
        if ($exp[0] === 'x') { if ($got[0] === 'x' && in_array($got[1], explode('|', $exp[1]))) return; }
        elseif ($got[0] === 'r' && same($exp[1], $got[1])) return;
        throw new Violation("$what: expected " . show($exp) . ' got ' . show($got));
    }
    /* ---- every read view against the content ---- */
    /* offsets out of range for every size used, some of which a narrower or scaled index would map into range */
    const FAR = [-1 << 32, -4096, -1 << 20, 1 << 20, 1 << 24, 1 << 31, 1 << 32, (1 << 32) + 1, 1 << 58, 1 << 60, 1 << 61, PHP_INT_MAX, PHP_INT_MIN];
    public static function views($o, array $m): void {
        $c = self::cls($o); $kind = self::KIND[$c]; $n = count($m); $pairy = self::pairy($c);
        $vals = $pairy ? array_column($m, 1) : $m; $keys = $pairy ? array_column($m, 0) : ($n ? range(0, $n - 1) : []);
        expect($n, $o->count(), 'count()'); expect($n, count($o), 'count($o)'); expect($n === 0, $o->isEmpty(), 'isEmpty()');
        expect(true, (bool)$o, '(bool)');
        if ($kind === 'heap') { self::heapViews($o, $m); return; }
        expect_list($o->values(), 'values()'); if ($pairy) { expect_list($o->keys(), 'keys()'); expect_list($o->toPairs(), 'toPairs()'); foreach ($o->toPairs() as $p) expect_list($p, 'a pair of toPairs()'); } elseif ($kind === 'seq') expect_list($o->toArray(), 'toArray()');
        expect($vals, $o->values(), 'values()'); $v2 = $o->values(); $v2[] = 1; expect($vals, $o->values(), 'values() again');
        if ($kind === 'seq' || $c === 'SortedIntVectorSet' || str_starts_with($c, 'ImmutableSorted')) expect($m, $o->toArray(), 'toArray()');
        else self::toArrayView($o, $pairy ? $keys : $vals, $vals);
        if ($pairy) { expect($keys, $o->keys(), 'keys()'); expect($m, $o->toPairs(), 'toPairs()'); }
        // foreach and getIterator, twice
        for ($r = 0; $r < 2; $r++) {
            $i = 0;
            foreach ($o as $k => $x) { if ($i >= $n) throw new Violation('foreach yields too many'); if ($kind !== 'set') expect($keys[$i], $k, "foreach key $i"); expect($vals[$i], $x, "foreach value $i"); $i++; }
            expect($n, $i, 'foreach steps');
        }
        $i = 0; $it = $o->getIterator();
        for ($it->rewind(); $it->valid(); $it->next()) { if ($i >= $n) throw new Violation('iterator yields too many'); if ($kind !== 'set') expect($keys[$i], $it->key(), "iterator key $i"); expect($vals[$i], $it->current(), "iterator value $i"); $i++; }
        expect($n, $i, 'iterator steps'); unset($it);
        expect($vals, [...(static function () use ($o) { foreach ($o as $x) yield $x; })()], 'spread of values');
        // exports
        $expJson = json_encode($pairy ? $m : $vals, JSON_PARTIAL_OUTPUT_ON_ERROR); $js = $pairy ? $m : $vals;
        if (method_exists($o, 'jsonSerialize')) { expect($js, $o->jsonSerialize(), 'jsonSerialize()'); expect($expJson, json_encode($o, JSON_PARTIAL_OUTPUT_ON_ERROR), 'json_encode'); }
        self::exportViews($o, $c, $js);
        // positional
        if ($kind === 'seq' || $c === 'SortedIntVectorSet' || str_starts_with($c, 'ImmutableSorted')) {
            foreach ($m as $i => $x) expect($x, $o->get($i), "get($i)");
            foreach (self::FAR as $i) self::cmp(X('OutOfBoundsException'), outcome(static fn() => $o->get($i)), "get($i)");
        }
        if ($kind === 'seq') foreach ([-1, ...array_keys($m), $n, ...self::FAR] as $i) {
            $in = $i >= 0 && $i < $n;
            self::cmp($in ? R($m[$i]) : X('OutOfBoundsException'), outcome(static fn() => $o[$i]), "[$i]"); self::cmp($in ? R($m[$i]) : X('OutOfBoundsException'), outcome(static fn() => $o->offsetGet($i)), "offsetGet($i)");
            expect($in, $o->containsKey($i), "containsKey($i)"); expect($in && $m[$i] !== null, isset($o[$i]), "isset [$i]"); expect($in && $m[$i] !== null, $o->offsetExists($i), "offsetExists($i)"); expect(!$in || !$m[$i], empty($o[$i]), "empty [$i]"); expect($in && $m[$i] !== null ? $m[$i] : 'D', $o[$i] ?? 'D', "[$i] ??");
        }
        if ($kind === 'pairs') foreach ([-1, ...array_keys($m), $n, ...self::FAR] as $i) {
            $in = $i >= 0 && $i < $n;
            self::cmp($in ? R($m[$i][0]) : X('OutOfBoundsException'), outcome(static fn() => $o->keyAt($i)), "keyAt($i)"); self::cmp($in ? R($m[$i][1]) : X('OutOfBoundsException'), outcome(static fn() => $o->valueAt($i)), "valueAt($i)");
        }
        // searches
        $nan = static fn($x) => str_contains(repr($x), 'dNAN');
        $ends = static fn($a) => $a ? confusable(array_unique([$a[0], $a[count($a) - 1]], SORT_REGULAR)) : [];
        foreach ([...$vals, 'absent', null, 0, '', 1.5, false, ...$ends($vals)] as $x) {
            if ($nan($x)) continue;
            $e = false; $idx = null; foreach ($vals as $i => $y) if ($kind === 'set' ? self::eq($c, $x, $y) : $x === $y) { $e = true; $idx ??= $i; }
            $s = show($x);
            if ($c === 'BitVector') { if (is_bool($x)) { $t = bv_search($x); expect(in_array($t, $m, true), $o->contains($x), "contains($s)"); $w = array_search($t, $m, true); expect($w === false ? null : $w, $o->indexOf($x), "indexOf($s)"); } continue; }
            expect($e, $o->contains($x), "contains($s)");
            if ($pairy) { expect($e, $o->containsValue($x), "containsValue($s)"); }
            if ($kind === 'pairs') { expect($idx, $o->indexOfValue($x), "indexOfValue($s)"); }
            elseif (method_exists($o, 'indexOf') && self::accepts($c, $x)) expect($idx, $o->indexOf($x), "indexOf($s)");
        }
        if ($pairy) foreach ([...$keys, 'absent', null, 0, '', 1.5, false, ...$ends($keys)] as $x) {
            if ($nan($x) && $kind === 'pairs') continue;
            $idx = null; foreach ($keys as $i => $y) if ($kind === 'map' ? self::eq($c, $x, $y) : $x === $y) { $idx ??= $i; }
            $s = show($x);
            expect($idx !== null, $o->containsKey($x), "containsKey($s)");
            if ($kind === 'pairs') expect($idx, $o->indexOfKey($x), "indexOfKey($s)");
            else {
                $v = $idx === null ? null : $vals[$idx];
                self::cmp($idx === null ? X('OutOfBoundsException') : R($v), outcome(static fn() => $o[$x]), "[$s]"); self::cmp($idx === null ? X('OutOfBoundsException') : R($v), outcome(static fn() => $o->get($x)), "get($s)");
                expect($idx === null ? 'D' : $v, $o->get($x, 'D'), "get($s, D)"); expect($v !== null, isset($o[$x]), "isset [$s]"); expect($v !== null, $o->offsetExists($x), "offsetExists($s)"); expect(!$v, empty($o[$x]), "empty [$s]"); expect($v ?? 'D', $o[$x] ?? 'D', "[$s] ??");
            }
        }
        // ends
        foreach (['first' => 0, 'bottom' => 0, 'last' => $n - 1, 'top' => $n - 1] as $f => $i) if (method_exists($o, $f)) self::cmp($n ? R($vals[$i]) : X('UnderflowException'), outcome(static fn() => $o->$f()), "$f()");
        foreach (['firstKey' => 0, 'bottomKey' => 0, 'lastKey' => $n - 1, 'topKey' => $n - 1] as $f => $i) if (method_exists($o, $f)) self::cmp($n ? R($keys[$i]) : X('UnderflowException'), outcome(static fn() => $o->$f()), "$f()");
        if (str_contains($c, 'Tree')) { expect(true, $o->debugIsBalanced(), 'debugIsBalanced()'); }
        self::engineViews($o, $kind, $keys, $vals, $js);
        expect($vals, $o->values(), 'values() after reading');
    }
    /* how the engine and the standard library see the collection */
    private static function engineViews($o, string $kind, array $keys, array $vals, array $js): void {
        $n = count($vals); $set = $kind === 'set';
        expect($n, iterator_count($o), 'iterator_count()'); expect($vals, iterator_to_array($o, false), 'iterator_to_array()');
        if ($kind === 'seq') { expect($vals, iterator_to_array($o, true), 'iterator_to_array() with keys'); expect($vals, [...$o], '[...$o]'); expect($vals, (static fn(...$a) => $a)(...$o), 'f(...$o)'); if ($n >= 2) { [$a, $b] = $o; expect([$vals[0], $vals[1]], [$a, $b], '[$a, $b] = $o'); [1 => $a] = $o; expect($vals[1], $a, '[1 => $a] = $o'); } }
        $i = 0; foreach ((static function () use ($o) { yield from $o; })() as $k => $x) { if (!$set) expect($keys[$i], $k, "yield from key $i"); expect($vals[$i] ?? null, $x, "yield from value $i"); $i++; } expect($n, $i, 'yield from steps');
        $i = 0; foreach ($o as $k => $x) { if ($i > 2) break; $j = 0; foreach ($o as $k2 => $y) { if ($j > 8) break; if (!$set) expect($keys[$j], $k2, 'inner foreach key'); expect($vals[$j], $y, 'inner foreach value'); $j++; } if (!$set) expect($keys[$i], $k, 'outer foreach key'); expect($vals[$i], $x, 'outer foreach value'); $i++; }
        foreach ([[0, 2], [1, 2], [max(0, $n - 1), 3]] as [$f, $l]) expect(array_slice($vals, $f, $l), iterator_to_array(new LimitIterator(new IteratorIterator($o), $f, $l), false), "LimitIterator($f, $l)");
        $it = $o->getIterator(); expect($n, iterator_apply($it, static fn() => true), 'iterator_apply()'); expect(false, $it->valid(), 'valid() after iterator_apply()'); $it->rewind(); expect($n > 0, $it->valid(), 'valid() after another rewind()'); if ($n) { expect($vals[0], $it->current(), 'current() after another rewind()'); expect($vals[0], $it->current(), 'current() again'); if (!$set) { expect($keys[0], $it->key(), 'key() after another rewind()'); } }
        if (method_exists($o, 'jsonSerialize')) foreach ([JSON_PRETTY_PRINT, JSON_FORCE_OBJECT, JSON_UNESCAPED_SLASHES | JSON_PRESERVE_ZERO_FRACTION] as $fl) { $fl |= JSON_PARTIAL_OUTPUT_ON_ERROR; expect(json_encode($js, $fl), json_encode($o, $fl), "json_encode with flags $fl"); expect(json_encode(['a' => [$js, $js]], $fl), json_encode(['a' => [$o, $o]], $fl), "nested json_encode with flags $fl"); }
        expect(true, is_iterable($o) && is_countable($o), 'is_iterable() and is_countable()');
    }
    private static function exportViews($o, string $c, array $js): void {
        expect($js, (array)$o, '(array) cast');
        if ($c === 'LowMemoryVector') return; // shows no elements in dumps, by design
        $e = outcome(static fn() => var_export($o, true));
        if ($e[0] === 'r') {
            $want = "\\Teds\\$c::__set_state(" . var_export($js, true) . ')';
            $norm = static fn($s) => preg_replace('/\s+|array|[()]/', '', $s);
            if ($norm($want) !== $norm($e[1])) throw new Violation('var_export: expected ' . addcslashes(substr($norm($want), 0, 300), "\0..\37\177..\377") . ' got ' . addcslashes(substr($norm($e[1]), 0, 300), "\0..\37\177..\377"));
        }
        ob_start(); var_dump($o); $d = ob_get_clean(); ob_start(); var_dump($js); $w = ob_get_clean();
        $d = substr($d, (int)strpos($d, "\n")); $w = substr($w, (int)strpos($w, "\n"));
        $fix = static fn($s) => preg_replace('/#\d+/', '#', $s);
        if ($fix($d) !== $fix($w)) throw new Violation('var_dump body: expected ' . show($w) . ' got ' . show($d));
    }
    /* keys are cast as $array[$key] = $value casts them, or TypeError */
    private static function toArrayView($o, array $keys, array $vals): void {
        $w = outcome(static function () use ($keys, $vals) { $a = []; foreach ($keys as $i => $k) $a[$k] = $vals[$i]; return $a; });
        self::cmp(array_slice($w, 0, 2), array_slice(outcome(static fn() => $o->toArray()), 0, 2), 'toArray()');
    }
    private static function heapViews($o, array $m): void {
        $n = count($m); $c = self::cls($o);
        self::expectContent($o, $m, 'drained clone');
        $bag = static function ($a) { $r = array_map('repr', $a); sort($r); return $r; };
        expect($bag($m), $bag($o->values()), 'values() as a multiset'); expect($o->values(), (array)$o, '(array) cast'); self::exportViews($o, $c, $o->values()); self::toArrayView($o, $o->values(), $o->values());
        $t = outcome(static fn() => $o->top());
        if (!$n) self::cmp(X('UnderflowException'), $t, 'top()'); elseif ($t[0] !== 'r' || mcmp($t[1], $m[0]) !== 0) throw new Violation('top() is ' . show($t) . ', expected ' . show($m[0]));
        expect($n > 0, $o->valid(), 'valid()');
        if ($n) { if (mcmp($o->current(), $m[0]) !== 0) throw new Violation('current() is ' . show($o->current())); }
        foreach ([...$m, 'absent', null, 0, 1.5, ...($m ? confusable([$m[0], $m[$n - 1]]) : [])] as $x) { if (str_contains(repr($x), 'dNAN')) continue; $e = false; foreach ($m as $y) if ($x === $y) $e = true; expect($e, $o->contains($x), 'contains ' . show($x)); }
        $d = clone $o; $i = 0; foreach ($d as $x) { if ($i >= $n) throw new Violation('foreach yields too many'); if (mcmp($x, $m[$i]) !== 0) throw new Violation("foreach value $i is " . show($x)); $i++; } expect($n, $i, 'foreach steps');
        expect($n, $o->count(), 'count() after reading');
    }
}
/* BitVector searches: see known finding BV-SEARCH */
function bv_search(bool $b): bool {
    static $inv = null;
    if ($inv === null) { $inv = (new Teds\BitVector([true]))->indexOf(true) === null; if ($inv) St::note('KF:BV-SEARCH'); }
    return $inv ? !$b : $b;
}
final class UniAgg implements IteratorAggregate {
    public function __construct(private array $e, private bool $pairy) {}
    public function getIterator(): Iterator { return new UniIt($this->e, $this->pairy); }
}
