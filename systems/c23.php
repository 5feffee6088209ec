<?php
require_once __DIR__ . '/../lib/scale.php';
require_once __DIR__ . '/../lib/uni.php';
/* Aliasing: nothing handed to or obtained from a collection shares state with it.
   Each case pairs a way of obtaining a partner (input, output, clone, derived collection, reference) with every modification of either side. */
function c23_vals(string $c, int $n): array { // nested arrays and dynamic strings so that shared storage is visible
    if (!in_array($c, Uni::ANYVALUE)) return Uni::sample($c, $n);
    $r = []; for ($i = 0; $i < $n; $i++) { $x = [['in' => [$i, str_repeat('q', $i + 1)]], str_repeat('s', $i + 2), $i * 3, 1.5 + $i, [[], [$i]], "k$i"][$i % 6]; $r[] = Uni::pairy($c) ? [is_array($x) ? $x : "key$i", $x] : $x; }
    return $r;
}
function c23_fresh(string $c): Closure { $i = 0; return static function () use ($c, &$i) { $x = Uni::sample($c, 1, 20 + $i++)[0]; return Uni::pairy($c) ? $x[0] : $x; }; }
function c23_scramble(&$x, int $how): void { // modify a plain value in place as user code could
    if (is_array($x)) {
        switch ($how) {
            case 0: foreach ($x as &$v) c23_scramble($v, 1); unset($v); return;
            case 1: foreach ($x as $k => $v) { $x[$k] = 'scrambled'; } $x[] = 'more'; return;
            case 2: array_pop($x); array_unshift($x, 'front'); return;
            case 3: sort($x); $x['added'] = &$x; unset($x['added']); foreach ($x as $k => &$w) { if (is_array($w)) { $w['deep'] = 1; } elseif (is_string($w) && $w !== '') $w[0] = '!'; else $w = -99; } return;
            case 4: $x = []; return;
        }
    } elseif (is_string($x) && $x !== '') { if ($how === 0 || $how === 3) { for ($i = 0; $i < strlen($x); $i++) $x[$i] = '!'; } else $x .= 'tail'; }
    else $x = 'other';
}
/* arrays and strings a collection gives out */
function c23_outputs(string $c): array {
    $q = "Teds\\$c"; $r = ['cast' => static fn($o) => (array)$o, 'serialize()' => static fn($o) => serialize($o), 'foreachall' => static function ($o) { $r = []; $d = $o instanceof Iterator ? clone $o : $o; foreach ($d as $k => $v) $r[] = [$k, $v]; return $r; }, 'vars' => static fn($o) => get_object_vars($o), 'mangled' => static fn($o) => get_mangled_object_vars($o), 'json' => static fn($o) => json_encode($o, JSON_PARTIAL_OUTPUT_ON_ERROR), 'iter2array' => static fn($o) => $o instanceof IteratorAggregate ? array_map(static fn($x) => $x, iterator_to_array($o, false)) : []];
    foreach (['values', 'keys', 'toArray', 'toPairs', 'jsonSerialize', '__serialize', 'toBinaryString', 'serialize', 'first', 'last', 'top', 'bottom', 'firstKey', 'lastKey', 'current'] as $f) if (method_exists($q, $f) && !($f === 'toArray' && (Uni::pairy($c) || in_array($c, ['StrictHashSet', 'StrictTreeSet', 'StrictSortedVectorSet', 'StrictMinHeap', 'StrictMaxHeap'])))) $r[$f] = static fn($o) => $o->$f();
    foreach (['get', 'keyAt', 'valueAt'] as $f) if (method_exists($q, $f) && Uni::kind($c) !== 'map') $r[$f] = static fn($o) => $o->$f(0);
    if (Uni::kind($c) === 'map') { $r['get'] = static fn($o) => $o->get($o->toPairs()[0][0]); $r['[]'] = static fn($o) => $o[$o->toPairs()[0][0]]; }
    if (Uni::kind($c) === 'seq') { $r['[]'] = static fn($o) => $o[0]; $r['offsetGet'] = static fn($o) => $o->offsetGet(0); }
    $r['it'] = static function ($o) { if (!($o instanceof IteratorAggregate)) return null; $it = $o->getIterator(); return [$it->current(), $it->key()]; };
    return $r;
}
/* collections derived from a collection */
function c23_derived(string $c): array {
    $q = "Teds\\$c"; $r = [];
    if ($c !== 'CachedIterable') { $r['clone'] = static fn($o) => clone $o; $r['clone2'] = static function ($o) { $d = clone $o; return clone $d; }; }
    if (method_exists($q, 'map')) { $r['map id'] = static fn($o) => $o->map(static fn($x) => $x); $r['map ref'] = static fn($o) => $o->map(static function &($x) { $s = $x; $GLOBALS['c23refs'][] = &$s; return $s; }); }
    if (method_exists($q, 'filter')) { $r['filter'] = static fn($o) => $o->filter(static fn($x) => true); }
    $r['copy'] = static fn($o) => Uni::pairy($c) ? ($c === 'CachedIterable' ? new $q($o) : $q::fromPairs($o->toPairs())) : new $q(Uni::kind($c) === 'heap' ? $o->values() : $o);
    $r['copyagg'] = static fn($o) => Uni::kind($c) === 'heap' ? new $q($o->values()) : new $q($o);
    $r['unser'] = static fn($o) => unserialize(serialize($o)); $r['state'] = static fn($o) => $q::__set_state((array)$o);
    return $r;
}
function c23_expect($o, array $m, string $what): void { Uni::expectContent($o, $m, $what); }
/* ways to put a referenced variable in */
function c23_refinputs(string $c): array {
    $q = "Teds\\$c"; $r = []; $pairy = Uni::pairy($c); $mut = in_array($c, Uni::MUTABLE);
    // each: fn(array &$vars) => collection ; $vars are n variables (entries); sources hold references to them
    $refs = static function (array &$v) use ($pairy) { $a = []; foreach ($v as $i => &$x) { if ($pairy) { $a[$i] = [0 => &$x[0], 1 => &$x[1]]; } else $a[$i] = &$x; } return $a; };
    if (!$pairy) { $r['ctor'] = static fn(&$v) => new $q($refs($v)); $r['ctorvar'] = static fn(&$v) => new $q($v); $r['assoc'] = static function (&$v) use ($q, $refs) { $a = []; foreach ($refs($v) as $i => $_) ; $b = $refs($v); foreach ($b as $i => &$x) $a["k$i"] = &$x; return new $q($a); }; }
    else { if ($c !== 'CachedIterable') $r['ctorvals'] = null; $r['fromPairs'] = static fn(&$v) => $q::fromPairs($refs($v)); $r['fromPairsvar'] = static fn(&$v) => $q::fromPairs($v); if ($c !== 'CachedIterable') $r['fromPairsgen'] = static fn(&$v) => $q::fromPairs((static function &() use (&$v, $refs) { $a = $refs($v); foreach ($a as &$x) yield $x; })()); }
    unset($r['ctorvals']);
    $r['setstate'] = static fn(&$v) => $q::__set_state($refs($v)); $r['setstatevar'] = static fn(&$v) => $q::__set_state($v);
    $r['refgen'] = static fn(&$v) => new $q((static function &() use (&$v, $pairy) { foreach ($v as &$x) { if ($pairy) { yield $x[0] => $x[1]; } else yield $x; } })());
    $r['arrayiter'] = static fn(&$v) => $pairy ? $q::__set_state($v) : new $q(new ArrayIterator($refs($v)));
    $r['arrayobj'] = static fn(&$v) => $pairy ? $q::__set_state($v) : new $q(new ArrayObject($refs($v)));
    $r['it'] = static fn(&$v) => new $q(new RefIt($v, $pairy));
    if ($mut) {
        switch (Uni::kind($c)) {
            case 'seq':
                $r['push'] = static function (&$v) use ($q) { $o = new $q; foreach ($v as &$x) $o->push($x); return $o; }; $r['pushall'] = static function (&$v) use ($q, $refs) { $o = new $q; $o->push(...$refs($v)); return $o; };
                $r['append'] = static function (&$v) use ($q) { $o = new $q; foreach ($v as &$x) $o[] = $x; return $o; }; $r['insert'] = static function (&$v) use ($q, $refs) { $o = new $q; $o->insert(0, ...$refs($v)); return $o; };
                $r['front'] = static function (&$v) use ($q, $refs) { $o = new $q; $o->pushFront(...array_reverse($refs($v))); return $o; };
                $r['set'] = static function (&$v) use ($q, $c) { $o = new $q(Uni::sample($c, count($v), 30)); $i = 0; foreach ($v as &$x) $o->set($i++, $x); return $o; }; $r['aset'] = static function (&$v) use ($q, $c) { $o = new $q(Uni::sample($c, count($v), 30)); $i = 0; foreach ($v as &$x) $o[$i++] = $x; return $o; }; $r['oset'] = static function (&$v) use ($q, $c) { $o = new $q(Uni::sample($c, count($v), 30)); $i = 0; foreach ($v as &$x) $o->offsetSet($i++, $x); return $o; };
                if ($c === 'Vector') $r['setSize'] = static function (&$v) use ($q) { $o = new $q; $i = 0; foreach ($v as &$x) $o->setSize(++$i, $x); return $o; };
                if (method_exists($q, 'map')) $r['mapref'] = static function (&$v) use ($q, $refs) { $a = $refs($v); $o = new $q(array_keys($a)); return $o->map(static function &($i) use (&$a) { return $a[$i]; }); };
                break;
            case 'map': $r['put'] = static function (&$v) use ($q) { $o = new $q; foreach ($v as &$x) $o[$x[0]] = $x[1]; return $o; }; $r['oset'] = static function (&$v) use ($q) { $o = new $q; foreach ($v as &$x) $o->offsetSet($x[0], $x[1]); return $o; }; $r['overwrite'] = static function (&$v) use ($q) { $o = new $q; foreach ($v as &$x) { $o[$x[0]] = 'old'; $o[$x[0]] = $x[1]; } return $o; };
                $r['refvar'] = static function (&$v) use ($q) { $o = new $q; foreach ($v as &$x) { $k = &$x[0]; $y = &$x[1]; $o[$k] = $y; } return $o; }; break;
            case 'pairs': $r['push'] = static function (&$v) use ($q) { $o = new $q; foreach ($v as &$x) { $k = &$x[0]; $y = &$x[1]; $o->push($k, $y); } return $o; }; $r['setat'] = static function (&$v) use ($q) { $o = new $q; $o->setSize(count($v)); $i = 0; foreach ($v as &$x) { $k = &$x[0]; $y = &$x[1]; $o->setKeyAt($i, $k); $o->setValueAt($i++, $y); } return $o; }; break;
            default: $r['add'] = static function (&$v) use ($q) { $o = new $q; foreach ($v as &$x) $o->add($x); return $o; };
        }
    }
    // references inside serialized data: a variable outside shares the slot
    $r['unser'] = static function (&$v) use ($q, $c) { $o = Uni::make($c, $v); return unserialize(serialize($o)); };
    return $r;
}
final class RefIt implements Iterator {
    private int $i = 0; private $k;
    public function __construct(private array &$v, private bool $p) {}
    public function current(): mixed { return $this->p ? $this->v[$this->i][1] : $this->v[$this->i]; }
    public function key(): mixed { return $this->p ? $this->v[$this->i][0] : $this->i; }
    public function next(): void { $this->i++; }
    public function rewind(): void { $this->i = 0; }
    public function valid(): bool { return $this->i < count($this->v); }
}
/* attempts to get a reference to, or modify in place, what is stored */
function c23_inplace(string $c): array {
    $r = ['foreach ref' => static function ($o) { foreach ($o as &$v) $v = 'changed'; }];
    $k0 = static fn($o) => Uni::kind($c) === 'map' ? $o->toPairs()[0][0] : 0;
    $r['ref dim'] = static function ($o) use ($k0) { $x = &$o[$k0($o)]; $x = 'changed'; }; $r['nested write'] = static function ($o) use ($k0) { $o[$k0($o)]['in'] = 'changed'; }; $r['nested append'] = static function ($o) use ($k0) { $o[$k0($o)][] = 'changed'; };
    $r['nested deep'] = static function ($o) use ($k0) { $o[$k0($o)]['in'][0] = 'changed'; }; $r['nested ref'] = static function ($o) use ($k0) { $x = &$o[$k0($o)]['in']; $x = 'changed'; }; $r['nested unset'] = static function ($o) use ($k0) { unset($o[$k0($o)]['in']); }; $r['by-ref arg'] = static function ($o) use ($k0) { $f = static function (&$x) { $x = 'changed'; }; $f($o[$k0($o)]); };
    $r['sort dim'] = static function ($o) use ($k0) { sort($o[$k0($o)]); };
    foreach (['map', 'filter'] as $f) if (method_exists("Teds\\$c", $f)) $r["$f by ref"] = static function ($o) use ($f) { $o->$f(static function (&$x) { $x = 'changed'; return true; }); };
    foreach (['any', 'all', 'find'] as $f) $r["$f by ref"] = static function ($o) use ($f) { if ($o instanceof IteratorAggregate) ("Teds\\$f")($o, static function (&$x) { $x = 'changed'; return false; }); };
    $r['fold by ref'] = static function ($o) { if ($o instanceof IteratorAggregate) Teds\fold($o, static function ($a, &$x) { $x = 'changed'; return 1; }, 0); };
    $r['array_walk'] = static function ($o) { @array_walk($o, static function (&$x) { $x = 'changed'; }); };
    $r['iter current'] = static function ($o) { if ($o instanceof IteratorAggregate) { $it = $o->getIterator(); $x = $it->current(); c23_scramble($x, 0); $k = $it->key(); c23_scramble($k, 0); } };
    $r['cast ref'] = static function ($o) { $a = (array)$o; foreach ($a as &$x) { c23_scramble($x, 0); } };
    $r['vars ref'] = static function ($o) { $a = get_mangled_object_vars($o); foreach ($a as &$x) c23_scramble($x, 3); };
    $r['prop'] = static function ($o) { $o->{'0'} = 'changed'; }; $r['prop ref'] = static function ($o) { $x = &$o->{'0'}; $x = 'changed'; }; $r['prop unset'] = static function ($o) { unset($o->{'0'}); };
    $r['reset'] = static function ($o) { @reset($o); @next($o); @end($o); };
    $r['extract'] = static function ($o) { $a = get_object_vars($o); if ($a) { $b = array_values($a); $b[0] = 'changed'; } };
    $r['Closure bind'] = static function ($o) { $f = static fn() => 1; };
    $r['usort values'] = static function ($o) { $v = $o->values(); usort($v, static fn($a, $b) => -1); $w = $o->values(); array_walk_recursive($w, static function (&$x) { $x = 0; }); };
    return $r;
}
return [
    'jobs' => function ($tier) {
        $th = $tier === 'thorough'; $jobs = [];
        foreach (Uni::KIND as $c => $k) {
            $sz = $th ? [1, 2, 3, 4, 5, 7, 8, 9, 16, 17] : [1, 2, 3, 5, 8];
            $jobs[] = ['name' => "out-$c", 'cls' => $c, 'part' => 'out', 'sizes' => $sz, 'weight' => 8, 'bound' => 'every output x every in-place modification of it, and every operation on the collection while the output is held'];
            $jobs[] = ['name' => "in-$c", 'cls' => $c, 'part' => 'in', 'sizes' => $sz, 'weight' => 5, 'bound' => 'every way of passing referenced variables x every modification of them, and the inputs after every operation on the collection'];
            $jobs[] = ['name' => "der-$c", 'cls' => $c, 'part' => 'der', 'sizes' => [0, ...$sz], 'weight' => 12, 'bound' => 'every derived collection x every pair of operations on the two sides'];
            $jobs[] = ['name' => "place-$c", 'cls' => $c, 'part' => 'place', 'sizes' => $sz, 'weight' => 3, 'bound' => 'every attempt to obtain a reference to a stored element'];
        }
        $jobs[] = ['name' => 'cross', 'cls' => '', 'part' => 'cross', 'weight' => 6, 'bound' => 'every ordered pair of classes: one built from the other, then every operation on either'];
        $jobs[] = ['name' => 'unserref', 'cls' => '', 'part' => 'unserref', 'weight' => 3, 'bound' => 'payloads in which a slot is shared by reference with a variable outside'];
        $jobs[] = ['name' => 'empties', 'cls' => '', 'part' => 'empties', 'weight' => 3, 'bound' => 'two independent empty collections of each class, every operation on one'];
        return [...$jobs, ...Scale::jobs(array_values(array_diff(array_keys(Uni::KIND), ['CachedIterable'])), 'copy', $tier, $th ? null : [[65, 129], [256, 257], [1025]])];
    },
    'run' => function ($job) {
        if (($job['kind'] ?? '') === 'scale') { Scale::run($job); return; }
       
        $c = $job['cls'];
        $run = static function ($id, callable $f) { Cases::run($id, static function () use ($id, $f) { St::$states++; St::$traces++; $f(); if (St::$states % 503 === 3) St::sample($id); }); };
        $hasVal = static fn(string $c) => in_array($c, Uni::MUTABLE);
        switch ($job['part']) {
            case 'out':
                foreach ($job['sizes'] as $n) foreach (Uni::ways($c) as $w) foreach (c23_outputs($c) as $name => $get) {
                    if (in_array($c, ['CachedIterable']) && in_array($name, ['foreachall'])) { /* fine */ }
                    $e = c23_vals($c, $n); $m = Uni::model($c, $e);
                    for ($how = 0; $how < 5; $how++) $run([$n, $w, $name, 'scramble', $how], static function () use ($c, $e, $m, $w, $get, $how, $name) {
                        $o = Uni::make($c, $e, $w); $x = $get($o); $want = repr($x); c23_scramble($x, $how); $y = $get($o); if (repr($y) !== $want) throw new Violation("$name gives something else after its previous result was modified"); $m2 = $m; c23_expect($o, $m2, "content after modifying the result of $name"); St::$transitions++; });
                    if (in_array($w, ['clone', 'agg', 'setstate', 'pairsgen']) && $n > 3) continue;
                    if ($hasVal($c)) foreach (Uni::ops($c, $m, c23_fresh($c)) as $i => $op) $run([$n, $w, $name, 'op', $i], static function () use ($c, $e, $m, $w, $get, $op, $name) {
                        $o = Uni::make($c, $e, $w); $x = $get($o); $want = repr($x); Uni::exec($o, $op); if (repr($x) !== $want) throw new Violation("the result of $name changed when {$op[0]} modified the collection"); $o->clear(); if (repr($x) !== $want) throw new Violation("the result of $name changed when the collection was cleared"); unset($o); if (repr($x) !== $want) throw new Violation("the result of $name changed when the collection was destroyed"); St::$transitions++; });
                    St::outcome("$c $name");
                }
                break;
            case 'in':
                foreach ($job['sizes'] as $n) foreach (c23_refinputs($c) as $name => $mk) {
                    $e = c23_vals($c, $n);
                    for ($how = 0; $how < 5; $how++) $run([$n, $name, $how], static function () use ($c, $e, $mk, $how, $name, $n) {
                        $v = $e; $o = $mk($v); if ($c === 'CachedIterable') $o->count(); $m = Uni::model($c, $e); c23_expect($o, $m, "$name content");
                        foreach ($v as &$x) c23_scramble($x, $how); unset($x); c23_expect($o, $m, "content after modifying the variables passed to $name"); $v = []; c23_expect($o, $m, "content after dropping the variables passed to $name");
                        $v = $e; $o = $mk($v); if ($c === 'CachedIterable') $o->count();
                        if (in_array($c, Uni::MUTABLE)) { foreach (Uni::kind($c) === 'seq' ? range(0, $n - 1) : [] as $i) { $y = Uni::sample($c, 1, 40 + $i)[0]; $o[$i] = $y; $o->set($i, $y); } if (Uni::kind($c) === 'map') foreach ($e as [$k]) $o[$k] = 'new'; if (Uni::kind($c) === 'pairs') for ($i = 0; $i < $n; $i++) { $o->setKeyAt($i, 'new'); $o->setValueAt($i, 'new'); } if (repr($v) !== repr($e)) throw new Violation("overwriting elements changed the variables passed to $name"); $o->clear(); if (repr($v) !== repr($e)) throw new Violation("clear() changed the variables passed to $name"); }
                        unset($o); if (repr($v) !== repr($e)) throw new Violation("destroying the collection changed the variables passed to $name"); St::$transitions += 3; });
                    St::outcome("$c $name");
                }
                break;
            case 'der':
                foreach ($job['sizes'] as $n) foreach ($n > 3 ? array_slice(Uni::ways($c), 0, 1) : Uni::ways($c) as $w) foreach (c23_derived($c) as $name => $mk) {
                    $e = c23_vals($c, $n); $m = Uni::model($c, $e); if ($c === 'BitVector' && str_starts_with($name, 'map')) continue;
                    $ops = $hasVal($c) ? Uni::ops($c, $m, c23_fresh($c)) : [['none']];
                    foreach ($ops as $i => $op) foreach ([0, 1] as $side) $run([$n, $w, $name, $i, $side], static function () use ($c, $e, $m, $w, $mk, $op, $side, $name, $ops, $i) {
                        $a = Uni::make($c, $e, $w); $b = $mk($a); if ($b === $a) throw new Violation("$name gave the same object"); $md = Uni::cls($b) === $c ? $m : Uni::content($b); c23_expect($b, $md, "$name content");
                        foreach ($GLOBALS['c23refs'] ?? [] as &$ref) $ref = 'changed'; unset($ref); $GLOBALS['c23refs'] = []; c23_expect($b, $md, "$name after changing what the callback returned by reference");
                        if ($op[0] === 'none') { [$x, $y] = $side ? [$a, $b] : [$b, $a]; unset($a, $b, $x); c23_expect($y, Uni::cls($y) === $c ? $m : $md, "one side after the other was destroyed"); return; }
                        if (Uni::cls($b) !== $c) { if ($side) return; Uni::exec($a, $op); c23_expect($b, $md, "$name result after {$op[0]} on the source"); return; }
                        [$x, $y] = $side ? [$a, $b] : [$b, $a]; [$exp, $m2] = Uni::apply($c, $m, $op); Uni::cmp($exp, Uni::exec($x, $op), $op[0]); c23_expect($x, $m2, "modified side after {$op[0]}"); c23_expect($y, $m, "other side of $name after {$op[0]}");
                        $op2 = $ops[($i * 7 + 3) % count($ops)]; [$exp, $m3] = Uni::apply($c, $m, $op2); Uni::cmp($exp, Uni::exec($y, $op2), $op2[0]); c23_expect($y, $m3, "second side after {$op2[0]}"); c23_expect($x, $m2, "first side of $name after {$op2[0]} on the second");
                        unset($a, $b, $x); c23_expect($y, $m3, 'second side after the first was destroyed'); St::$transitions += 2; });
                    St::outcome("$c $name");
                }
                break;
            case 'place':
                foreach ($job['sizes'] as $n) foreach (Uni::ways($c) as $w) foreach (c23_inplace($c) as $name => $f) $run([$n, $w, $name], static function () use ($c, $n, $w, $name, $f) {
                    $e = c23_vals($c, $n); $m = Uni::model($c, $e); $o = Uni::make($c, $e, $w); $r = outcome(static fn() => $f($o)); unset($r); c23_expect($o, $m, "content after $name"); Uni::views($o, $m); St::$transitions++; St::outcome("place $name"); });
                break;
            case 'cross':
                $cl = array_keys(Uni::KIND);
                foreach ($cl as $a) foreach ($cl as $b) foreach ([0, 1, 3, 5] as $n) {
                    if (Uni::pairy($a) !== Uni::pairy($b) || Uni::kind($a) === 'heap') continue;
                    $e = in_array($a, Uni::ANYVALUE) ? (in_array($b, Uni::ANYVALUE) ? c23_vals($a, $n) : Uni::sample($b, $n)) : Uni::sample($a, $n); $ok = true; foreach ($e as $x) if (!Uni::pairy($a) && !(Uni::accepts($a, $x) && Uni::accepts($b, $x))) $ok = false; if (!$ok) continue;
                    $ma = Uni::model($a, $e); $mb = Uni::model($b, $ma);
                    foreach ([0, 1] as $side) { $x = $side ? $a : $b; $mx = $side ? $ma : $mb; foreach ($hasVal($x) ? Uni::ops($x, $mx, c23_fresh($x)) : [['none']] as $i => $op) $run([$a, $b, $n, $side, $i], static function () use ($a, $b, $e, $side, $op, $ma, $mb, $x, $mx) {
                        $q = "Teds\\$b"; $o = Uni::make($a, $e); $d = new $q($o); if ($b === 'CachedIterable') $d->count(); c23_expect($d, $mb, 'built content'); c23_expect($o, $ma, 'source content');
                        if ($op[0] !== 'none') { [$exp, $m2] = Uni::apply($x, $mx, $op); $t = $side ? $o : $d; Uni::cmp($exp, Uni::exec($t, $op), $op[0]); c23_expect($t, $m2, "$x after {$op[0]}"); }
                        c23_expect($side ? $d : $o, $side ? $mb : $ma, 'the other collection'); if ($side) { unset($o, $t); c23_expect($d, $mb, 'after the source is gone'); } St::$transitions++; }); }
                    St::outcome("$a to $b");
                }
                break;
            case 'unserref':
                foreach (Uni::ANYVALUE as $c) foreach ([1, 2, 3] as $n) foreach (['before', 'after', 'inside'] as $where) for ($pos = 0; $pos < $n * (Uni::pairy($c) ? 2 : 1); $pos++) $run([$c, $n, $where, $pos], static function () use ($c, $n, $where, $pos) {
                    $e = []; for ($i = 0; $i < $n; $i++) $e[] = Uni::pairy($c) ? [10 + $i, "v$i"] : 10 + $i; $q = "Teds\\$c";
                    $p = Uni::make($c, $e)->__serialize(); if ($c === 'LowMemoryVector') { $p = [7, array_map(static fn($x) => $x, $e)]; $slot = &$p[1][$pos]; } else $slot = &$p[array_keys($p)[$pos]];
                    // serialize an array holding the slot by reference next to the payload, then turn the payload into the object
                    $arr = $where === 'before' ? [&$slot, $p] : [$p, &$slot];
                    $s = serialize($arr); $inner = $where === 'before' ? 'i:1;a:' : '{i:0;a:'; $at = strpos($s, $inner); if ($at === false) throw new HarnessError($s); $s = substr($s, 0, $at) . substr($inner, 0, -2) . 'O:' . strlen($q) . ':"' . $q . '":' . substr($s, $at + strlen($inner));
                    $r = outcome(static function () use ($s) { return unserialize($s); }); if ($r[0] === 'x') return; $a = $r[1]; unset($r); $k = $where === 'before' ? 1 : 0; $o = $a[$k]; if (!is_object($o)) throw new HarnessError("unserialize of $s");
                    $m = Uni::model($c, $e); c23_expect($o, $m, 'unserialized content'); $a[1 - $k] = 'changed'; c23_expect($o, $m, 'content after assigning to the variable that shared the slot'); $b = &$a[1 - $k]; $b = [1]; c23_expect($o, $m, 'content after assigning again');
                    if (in_array($c, Uni::MUTABLE)) { $o->clear(); if ($a[1 - $k] !== [1]) throw new Violation('clear() changed an outside variable'); } St::$transitions++; St::outcome("unserref $c"); });
                break;
            case 'empties':
                foreach (Uni::MUTABLE as $c) foreach (Uni::ways($c) as $w) foreach (Uni::ways($c) as $w2) foreach (Uni::ops($c, [], c23_fresh($c)) as $i => $op) $run([$c, $w, $w2, $i], static function () use ($c, $w, $w2, $op) {
                    $a = Uni::make($c, [], $w); $b = Uni::make($c, [], $w2); [$exp, $m] = Uni::apply($c, [], $op); Uni::cmp($exp, Uni::exec($a, $op), $op[0]); c23_expect($a, $m, $op[0]); c23_expect($b, [], 'another empty collection'); Uni::views($b, []); $d = Uni::make($c, []); c23_expect($d, [], 'a new empty collection'); St::$transitions++; });
                break;
        }
    },
];
