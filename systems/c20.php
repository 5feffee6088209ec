<?php
require_once __DIR__ . '/../lib/scale.php';
require_once __DIR__ . '/../lib/life.php';
/* Values are alive exactly while reachable; nothing leaks, nothing is released twice; cycles are collected. */
function c20_entries(string $c, int $n, string $flavour): array { // placeholders
    if (!in_array($c, Uni::ANYVALUE)) return Uni::sample($c, $n);
    $r = [];
    for ($i = 0; $i < $n; $i++) {
        $one = static fn($p) => match ($flavour) { 'obj' => "#$p$i", 'arr' => ["#$p$i", 'k' => 1], 'str' => "\$$p$i", 'mix' => [["#$p$i"], '@', "#$p$i", "\$$p$i", $i, null, 1.5, [["\$$p$i"]]][$i % 8] };
        $r[] = Uni::pairy($c) ? [$one('k'), $one('v')] : $one('v');
    }
    return $r;
}
function c20_fresh(string $c, string $flavour): Closure {
    $i = 0;
    if (!in_array($c, Uni::ANYVALUE)) return static function () use ($c, &$i) { return Uni::sample($c, 1, 20 + $i++)[0]; };
    return static function () use (&$i, $flavour) { $i++; return match ($flavour) { 'obj' => "#f$i", 'arr' => ["#f$i"], 'str' => "\$f$i", 'mix' => [["#f$i"], "\$f$i", $i, "#f$i", '@'][$i % 5] }; };
}
function c20_ops(string $c, array $m, string $flavour): array { return Uni::ops($c, $m, c20_fresh($c, $flavour)); }
function c20_readers(string $c): array {
    $r = ['foreach', 'foreachbreak', 'foreachthrow', 'iter', 'iter2', 'iterdrop', 'array', 'json', 'export', 'dump', 'serialize', 'debuginfo', 'ser', 'spread', 'isset', 'coalesce', 'eq', 'badcall', 'reconstruct', 'badreconstruct'];
    if ($c !== 'CachedIterable') array_push($r, 'clone', 'clonemod');
    $q = "Teds\\$c";
    foreach (['values', 'keys', 'toPairs', 'toArray', 'first', 'last', 'top', 'bottom', 'firstKey', 'lastKey', 'jsonSerialize', 'count', 'isEmpty', '__serialize', 'current', 'valid', 'rewind'] as $f) if (method_exists($q, $f)) $r[] = "()$f";
    foreach (['contains', 'indexOf', 'containsKey', 'containsValue', 'indexOfKey', 'indexOfValue', 'get', 'offsetGet', 'offsetExists', 'keyAt', 'valueAt', 'remove', 'offsetUnset', 'getInt8', 'setInt8', 'getInt64'] as $f) if (method_exists($q, $f)) $r[] = ">$f";
    foreach (['map', 'filter'] as $f) if (method_exists($q, $f)) { $r[] = "*$f"; $r[] = "!$f"; if ($f === 'filter') $r[] = '-filter'; }
    foreach (['foreach', 'foreachbreak', '()values', '()toPairs', '()keys', '>contains', '>containsKey'] as $f) $r[] = "i$f";
    return $r;
}
function c20_read(string $c, $o, string $r, array $e): void {
    $some = static function ($i) use ($e, $c) { $x = $e[$i] ?? 'absent'; return is_array($x) && Uni::pairy($c) ? $x : [$x, $x]; };
    switch ($r) {
        case 'foreach': foreach ($o as $k => $v) ; return;
        case 'foreachbreak': $i = 0; foreach ($o as $k => $v) if ($i++ === 1) break; return;
        case 'foreachthrow': try { foreach ($o as $k => $v) throw new Boom; } catch (Boom) {} return;
        case 'iter': $it = $o instanceof IteratorAggregate ? $o->getIterator() : $o; foreach ($it as $k => $v) ; return;
        case 'iter2': if (!($o instanceof IteratorAggregate)) return; $a = $o->getIterator(); $b = $o->getIterator(); if ($a->valid()) { $x = [$a->key(), $a->current()]; $a->next(); } if ($b->valid()) $y = $b->current(); unset($a); if ($b->valid()) $b->next(); if ($b->valid()) $z = [$b->key(), $b->current()]; $b->rewind(); return;
        case 'iterdrop': if (!($o instanceof IteratorAggregate)) return; $a = $o->getIterator(); if ($a->valid()) $a->current(); unset($o); return;
        case 'array': $x = (array)$o; $x[] = 1; return;
        case 'json': $x = json_encode($o, JSON_PARTIAL_OUTPUT_ON_ERROR); return;
        case 'export': $x = var_export($o, true); return;
        case 'dump': ob_start(); var_dump($o); ob_end_clean(); return;
        case 'debuginfo': $x = print_r($o, true); return;
        case 'serialize': $x = serialize($o); return;
        case 'ser': $x = unserialize(serialize([1])); return;
        case 'spread': try { $f = static fn(...$a) => count($a); $f(...$o); } catch (Error) {} return;
        case 'isset': $x = outcome(static fn() => isset($o[0])); $k = Life::res($some(0)[0]); $x = outcome(static fn() => isset($o[$k]) && !empty($o[$k])); return;
        case 'coalesce': $k = Life::res($some(1)[0]); $x = outcome(static fn() => $o[$k] ?? null); return;
        case 'eq': $x = $o == $o; return;
        case 'badcall': foreach (['nosuch', 'push', 'set', 'contains', 'insert'] as $f) $x = outcome(static fn() => $o->$f()); return;
        case 'reconstruct': $x = outcome(static fn() => $o->__construct([])); return;
        case 'badreconstruct': $x = outcome(static fn() => $o->__unserialize([Life::get('#z')])); $x = outcome(static fn() => $o->__construct(5)); return;
        case 'clone': $d = clone $o; return;
        case 'clonemod': $d = clone $o; if (in_array($c, Uni::MUTABLE)) { foreach ([$o, $d] as $i => $w) Uni::exec($w, Uni::KIND[$c] === 'map' ? ['put', Life::get("#z$i"), Life::get("#y$i")] : (Uni::KIND[$c] === 'seq' ? ['push', in_array($c, Uni::ANYVALUE) ? Life::get("#z$i") : Uni::sample($c, 1)[0]] : ['clear'])); unset($o); $d->clear(); } return;
    }
    $f = substr($r, 1);
    if ($r[0] === '(') { $f = substr($r, 2); $x = outcome(static fn() => $o->$f()); return; }
    if ($r[0] === 'i') { if (!($o instanceof IteratorAggregate)) return; $it = $o->getIterator(); if ($it->valid()) { $x = $it->current(); $it->next(); } c20_read($c, $o, $f, $e); if ($it->valid()) $x = $it->current(); return; }
    if ($r[0] === '>') { foreach ([Life::res($some(0)[0]), Life::res($some(1)[1]), 0, 99, 'q', null, [1]] as $a) $x = outcome(static fn() => $o->$f($a)); $x = outcome(static fn() => $o->$f(0, Life::get('#q'))); return; }
    if ($r[0] === '*') { $x = $o->$f(static fn($v) => [$v]); $y = $o->$f(static fn($v) => false); $x = outcome(static fn() => $o->$f(static fn(&$v) => $v = 1)); return; }
    if ($r[0] === '-') { $x = $o->filter(); return; }
    if ($r[0] === '!') { for ($k = 0; $k < 5; $k++) { $i = 0; $x = outcome(static function () use ($o, $f, &$i, $k) { return $o->$f(static function ($v) use (&$i, $k) { if ($i++ === $k) throw new Boom; return [$v]; }); }); } return; }
    throw new HarnessError("reader $r");
}
function c20_make(string $c, array $e, string $way) { return Uni::make($c, Life::res($e), $way); }
/* one history: build, apply ops one by one, check alive == reachable after each, then drop */
function c20_history(string $c, array $e, string $way, string $flavour, array $idx, bool $keep): array {
    $o = c20_make($c, $e, $way); $kept = [];
    gc_collect_cycles_if();
    $m = Life::content($o); Life::check($m, "after construction ($way)");
    if ($keep) foreach (Life::$alive as $t => $w) if ($w->get()) $kept[$t] = [$w->get(), $w->get()];
    unset($w);
    $names = [];
    foreach ($idx as $i) {
        $ops = c20_ops($c, $m, $flavour); if ($i >= count($ops)) { unset($o, $kept); return [0, []]; }
        $names[] = $ops[$i][0];
        $r = Uni::exec($o, Life::res($ops[$i])); unset($r);
        $m = Life::content($o); Life::check($m, implode(',', $names), array_keys($kept)); St::$transitions++;
    }
    $next = count(c20_ops($c, $m, $flavour));
    unset($o);
    Life::check(null, implode(',', $names) . ', collection destroyed', array_keys($kept));
    foreach ($kept as $t => &$p) unset($p[0]); unset($p);
    Life::check(null, implode(',', $names) . ', collection destroyed, one holder left', array_keys($kept));
    unset($kept);
    return [$next, $names];
}
function gc_collect_cycles_if(): void {}
/* scenarios in which construction or conversion fails part way */
function c20_faults(string $c): array {
    $q = "Teds\\$c"; $pairy = Uni::pairy($c); $e = c20_entries($c, 3, 'mix'); $s = [];
    $fromPairs = method_exists($q, 'fromPairs');
    for ($at = 0; $at < 18; $at++) {
        $s["ctor it $at"] = static function () use ($q, $e, $pairy, $at) { outcome(static function () use ($q, $e, $pairy, $at) { $o = new $q(new FaultIt($e, $pairy, $at)); count($o); }); };
        $s["ctor agg $at"] = static function () use ($q, $e, $pairy, $at) { outcome(static function () use ($q, $e, $pairy, $at) { $o = new $q(new FaultAgg($e, $pairy, $at)); count($o); }); };
        if ($fromPairs) $s["fromPairs it $at"] = static function () use ($q, $e, $at) { outcome(static function () use ($q, $e, $at) { $o = $q::fromPairs(new FaultIt($e, false, $at)); count($o); }); };
        if ($c === 'CachedIterable') foreach (['foreach', 'iter', 'at', 'contains', 'it2'] as $how) $s["cached $how $at"] = static function () use ($q, $e, $at, $how) {
            outcome(static function () use ($q, $e, $at, $how) {
                $o = new $q(new FaultIt($e, true, $at));
                switch ($how) {
                    case 'foreach': foreach ($o as $k => $v) ; break;
                    case 'iter': $it = $o->getIterator(); while ($it->valid()) { $it->current(); $it->next(); } break;
                    case 'at': $o->valueAt(1); break;
                    case 'contains': $o->contains('nope'); break;
                    case 'it2': $a = $o->getIterator(); if ($a->valid()) $a->next(); try { count($o); } catch (Throwable) {} $b = $o->getIterator(); while ($b->valid()) $b->next(); break;
                }
            });
        };
    }
    $s['ctor agg throws'] = static function () use ($q, $e) { outcome(static fn() => new $q(new FaultAgg($e, false, 99, true))); };
    foreach ([0, 1, 2, 3] as $k) {
        $s["gen throws $k"] = static function () use ($q, $e, $k, $pairy) { outcome(static function () use ($q, $e, $k, $pairy) { $o = new $q((static function () use ($e, $k, $pairy) { foreach ($e as $i => $x) { if ($i === $k) throw new Boom; $x = Life::res($x); if ($pairy) yield $x[0] => $x[1]; else yield $x; } if ($k === 3) throw new Boom; })()); count($o); }); };
        foreach (['#bad', 5.5, 'str', [1], null, 7, [['#bad']], ['#bad', '#b2', '#b3'], ['x' => '#bad'], [1 => '#bad']] as $j => $bad) {
            $e2 = $e; array_splice($e2, $k, 0, [$bad]);
            $s["ctor bad $k $j"] = static function () use ($q, $e2) { outcome(static fn() => new $q(Life::res($e2))); };
            $s["setstate bad $k $j"] = static function () use ($q, $e2) { outcome(static fn() => $q::__set_state(Life::res($e2))); };
            if ($fromPairs) { $s["fromPairs bad $k $j"] = static function () use ($q, $e2) { outcome(static fn() => $q::fromPairs(Life::res($e2))); }; $s["fromPairs gen bad $k $j"] = static function () use ($q, $e2) { outcome(static fn() => $q::fromPairs((static function () use ($e2) { foreach ($e2 as $x) yield Life::res($x); })())); }; }
        }
    }
    // unserialize: whole payload of tracked values, then with one element replaced / removed / string key
    $pl = static function () use ($c, $e) { $o = c20_make($c, $e, 'std'); return $o->__serialize(); };
    $n = 8;
    for ($k = -1; $k < $n; $k++) foreach (['drop', 'obj', 'str', 'strkey', 'int', 'arr', 'dup', 'ref'] as $how) {
        if ($k < 0 && $how !== 'drop') continue;
        $s["unser $k $how"] = static function () use ($q, $pl, $k, $how) {
            $p = $pl(); $keys = array_keys($p); if ($k >= count($p)) return; $x = $k >= 0 ? $p[$keys[$k]] : null;
            if ($k >= 0) switch ($how) {
                case 'drop': array_splice($p, $k, 1); break;
                case 'obj': $p[$keys[$k]] = Life::get('#u'); break;
                case 'str': $p[$keys[$k]] = '$u'; break;
                case 'int': $p[$keys[$k]] = 3; break;
                case 'arr': $p[$keys[$k]] = [Life::get('#u')]; break;
                case 'strkey': $p['key'] = Life::get('#u'); break;
                case 'dup': $p[] = $p[0]; break;
                case 'ref': $r = Life::get('#r'); $p[$keys[$k]] = &$r; $p[] = &$r; break;
            }
            $str = serialize($p); unset($p, $x, $r);
            $str = preg_replace('/^a:/', 'O:' . strlen($q) . ':"' . $q . '":', $str);
            outcome(static fn() => unserialize($str));
            outcome(static fn() => unserialize(substr($str, 0, -3)));
            if ($how !== 'dup' && $how !== 'ref') outcome(static fn() => unserialize('a:2:{i:0;' . $str . 'i:1;X:}')); // php itself keeps back-referenced values when an outer payload fails
        };
    }
    if (method_exists($q, 'unserialize')) foreach (['', 'a', "\1", "\4\1", str_repeat("\1", 9), "\2\0\0\0\1a", "\1\0\0\0\377aaaa"] as $i => $b) $s["spec unser $i"] = static function () use ($q, $b) { outcome(static fn() => $q::unserialize($b)); };
    if (method_exists($q, 'fromBinaryString')) foreach (['', 'a', 'abc'] as $i => $b) $s["frombin $i"] = static function () use ($q, $b) { outcome(static fn() => $q::fromBinaryString($b)); };
    $s['ctor nonsense'] = static function () use ($q) { outcome(static fn() => new $q(5)); outcome(static fn() => new $q(Life::get('#x'))); outcome(static fn() => new $q()); outcome(static fn() => new $q([], [])); };
    return $s;
}
/* functions of the extension */
function c20_functions(): array {
    $s = [];
    $srcs = ['list' => static fn() => Life::res(['#a', '#b', ['#c'], '$s']), 'assoc' => static fn() => Life::res(['x' => '#a', 'y' => ['#b'], 3 => '$t']), 'gen' => static fn() => (static function () { yield 'k' => Life::get('#a'); yield Life::get('#k') => Life::get('#b'); yield 1 => '$'; })(),
        'agg' => static fn() => new FaultAgg(['#a', ['#b'], '#c'], false, 99), 'vec' => static fn() => new Teds\Vector(Life::res(['#a', '#b', ['#c']])), 'deque' => static fn() => new Teds\Deque(Life::res(['#a', '#b'])), 'hash' => static fn() => new Teds\StrictHashMap(Life::res(['q' => '#a', 'r' => '#b'])),
        'refs' => static function () { $a = Life::res(['#a', '#b']); foreach ($a as &$v) ; return $a; }, 'empty' => static fn() => []];
    for ($at = 0; $at < 12; $at++) $srcs["fault$at"] = static fn() => new FaultIt(['#a', ['#b'], '#c'], false, $at);
    foreach ($srcs as $sn => $src) {
        foreach (['any', 'all', 'none', 'find'] as $f) { $fn = "Teds\\$f"; foreach (['t', 'f', 'throw', 'throw1', 'obj', 'id', 'replace'] as $cb) $s["$f $sn $cb"] = static function () use ($fn, $src, $cb) {
            $i = 0; $cbf = match ($cb) { 't' => static fn($v) => true, 'f' => static fn($v) => false, 'throw' => static fn($v) => throw new Boom, 'throw1' => static function ($v) use (&$i) { if ($i++) throw new Boom; return [Life::get('#r')][5] ?? 0; }, 'obj' => static fn($v) => Life::get('#r'), 'id' => static fn($v) => $v, 'replace' => static fn(&$v) => $v = 0 };
            $x = outcome(static fn() => $fn($src(), $cbf)); }; }
        foreach (['any', 'all', 'none', 'unique_values'] as $f) { $fn = "Teds\\$f"; $s["$f $sn"] = static function () use ($fn, $src) { $x = outcome(static fn() => $fn($src())); }; }
        foreach (['acc', 'new', 'throw'] as $cb) $s["fold $sn $cb"] = static function () use ($src, $cb) { $x = outcome(static fn() => Teds\fold($src(), static function ($a, $v) use ($cb) { if ($cb === 'throw') throw new Boom; return $cb === 'acc' ? [$a, $v] : [Life::get('#n')]; }, [Life::get('#init')])); };
        foreach (['#a', '$t', 5] as $i => $needle) $s["includes_value $sn $i"] = static function () use ($src, $needle) { $x = outcome(static fn() => Teds\includes_value($src(), Life::res($needle))); };
        $s["find default $sn"] = static function () use ($src) { $x = outcome(static fn() => Teds\find($src(), static fn() => false, Life::get('#d'))); };
    }
    foreach (['list', 'assoc', 'refs', 'empty'] as $sn) { $src = $srcs[$sn];
        foreach (['array_value_first', 'array_value_last'] as $f) { $fn = "Teds\\$f"; $s["$f $sn"] = static function () use ($fn, $src) { $x = outcome(static fn() => $fn($src())); }; }
        foreach ([0, 1] as $useKey) foreach (['cmp', 'throw', 'obj'] as $cb) $s["binary_search $sn $useKey $cb"] = static function () use ($src, $useKey, $cb) { $x = outcome(static fn() => Teds\binary_search($src(), Life::get('#t'), static function ($a, $b) use ($cb) { if ($cb === 'throw') throw new Boom; return $cb === 'obj' ? Life::get('#r') : 1; }, (bool)$useKey)); };
        $s["strict_hash $sn"] = static function () use ($src) { $x = outcome(static fn() => Teds\strict_hash($src())); };
        $s["stable_compare $sn"] = static function () use ($src) { $a = $src(); $b = $src(); $b[] = Life::get('#z'); $x = [Teds\stable_compare($a, $b), Teds\strict_equals($a, $b), Teds\stable_compare($a, $a)]; }; }
    return $s;
}
/* reference cycles */
function c20_give(&$o) { $r = $o; $o = null; return $r; }
function c20_cycles(string $c): array {
    $s = []; $pairy = Uni::pairy($c); $mut = in_array($c, Uni::MUTABLE);
    $q = "Teds\\$c";
    foreach (Uni::ways($c) as $way) foreach ([1, 2, 3, 5, 9, 17] as $n) foreach (array_unique([0, intdiv($n, 2), $n - 1]) as $pos) foreach ($pairy ? ['key', 'value'] : ['value'] as $part) foreach (['back', 'arr', 'iter', 'two', 'solo'] as $how)
        $s["$way $n $pos $part $how"] = static function () use ($c, $way, $n, $pos, $part, $how, $pairy) {
            $e = c20_entries($c, $n, 'obj'); $tok = $pairy ? $e[$pos][$part === 'key' ? 0 : 1] : $e[$pos];
            if ($how === 'solo') foreach ($e as $i => &$x) { if ($pairy) $x[$part === 'key' ? 1 : 0] = $i; elseif ($i !== $pos) $x = $i; } unset($x); // everything else is a plain int
            $o = c20_make($c, $e, $way); $m = Life::content($o); Life::check($m, 'built');
            $t = Life::$alive[$tok]->get();
            switch ($how) { case 'solo': case 'back': $t->x = $o; break; case 'arr': $t->x = ['p' => [$o, &$t->x]]; break; case 'iter': $t->x = [$o, static fn() => $o]; break; case 'two': $u = new T('#other'); $u->x = new Teds\Deque([$t]); $t->x = [$u, $o]; unset($u); break; }
            unset($t);
            gc_collect_cycles(); $extra = $how === 'two' ? ['#other'] : [];
            Life::check($m, 'collector ran while the collection is in use', $extra); if ($way !== 'unser' || true) expect($m, Life::content($o), 'content after the collector ran');
            if (in_array($c, Uni::MUTABLE) && $n === 3) { Uni::exec($o, Uni::KIND[$c] === 'map' ? ['put', Life::get('#nk'), Life::get('#nv')] : (Uni::KIND[$c] === 'pairs' ? ['push', Life::get('#nk'), Life::get('#nv')] : [Uni::KIND[$c] === 'seq' ? 'push' : 'add', Life::get('#nv')])); gc_collect_cycles(); Life::check(Life::content($o), 'collector ran after an insertion', $extra); }
            unset($o); gc_collect_cycles(); gc_collect_cycles();
            Life::check(null, 'collector ran after the last outside reference went away');
        };
    // a cycle through a part of the source that is already cached, while the source is not finished
    if ($c === 'CachedIterable') foreach ([2, 3, 5, 9] as $n) for ($steps = 2; $steps <= $n; $steps++) for ($pos = 0; $pos < $steps - 1; $pos++) foreach (['key', 'value'] as $part)
        $s["unfinished $n $steps $pos $part"] = static function () use ($n, $steps, $pos, $part) {
            $o = new Teds\CachedIterable((static function () use ($n, $part) { for ($i = 0; $i < $n; $i++) yield ($part === 'key' ? new T("#k$i") : $i) => ($part === 'value' ? new T("#v$i") : $i); })());
            $o->keyAt($steps - 1); $t = $part === 'key' ? $o->keyAt($pos) : $o->valueAt($pos); $t->x = $o; unset($t);
            gc_collect_cycles(); expect($pos, $part === 'key' ? $o->valueAt($pos) : $o->keyAt($pos), 'entry after the collector ran'); expect(true, ($part === 'key' ? $o->keyAt($pos) : $o->valueAt($pos)) instanceof T, 'object after the collector ran');
            unset($o); gc_collect_cycles(); gc_collect_cycles(); Life::check(null, 'collector ran after the last outside reference to an unfinished cache went away');
        };
    // an open foreach of a suspended generator or fiber inside the cycle
    if (Uni::KIND[$c] !== 'heap') foreach ([1, 2, 3, 5, 9, 17] as $n) foreach (array_unique([0, intdiv($n, 2), $n - 1]) as $pos) foreach (array_unique([1, 2, $n]) as $steps) foreach ($steps <= $n ? ['gen', 'genonly', 'yieldfrom', 'fiber'] : [] as $how)
        $s["open foreach $n $pos $steps $how"] = static function () use ($c, $n, $pos, $steps, $how, $pairy) {
            $e = c20_entries($c, $n, 'obj'); $tok = $pairy ? $e[$pos][$steps % 2] : $e[$pos]; $o = c20_make($c, $e, Uni::ways($c)[0]); $m = Life::content($o); $t = Life::$alive[$tok]->get();
            $each = static function () use ($o) { foreach ($o as $x) yield 1; }; $only = static function ($o) { foreach (c20_give($o) as $x) { $o = null; yield 1; } };
            if ($how === 'fiber') { $t->x = new Fiber(static function ($o) { foreach ($o as $x) Fiber::suspend(); }); $t->x->start($o); for ($i = 1; $i < $steps; $i++) $t->x->resume(); }
            else { $t->x = match ($how) { 'gen' => $each(), 'genonly' => $only($o), 'yieldfrom' => (static function () use ($each) { yield from $each(); })() }; $t->x->current(); for ($i = 1; $i < $steps; $i++) $t->x->next(); }
            unset($t, $each, $only); gc_collect_cycles(); Life::check($m, 'collector ran while the collection is in use'); expect($m, Life::content($o), 'content after the collector ran');
            unset($o); gc_collect_cycles(); gc_collect_cycles(); Life::check(null, 'collector ran after the last outside reference went away');
        };
    // removal of the link: the rest is released without the collector
    if ($mut) foreach (['clear', 'drop'] as $how) $s["unlink $how"] = static function () use ($c, $how) {
        $e = c20_entries($c, 3, 'obj'); $o = c20_make($c, $e, 'std'); foreach (Life::$alive as $w) { if ($w->get()) $w->get()->x = $o; }
        if ($how === 'clear') { $o->clear(); Life::check(null, 'cleared'); } unset($o, $w); if ($how === 'drop') { gc_collect_cycles(); Life::check(null, 'dropped'); } };
    // an iterator or a generator source inside the cycle
    if ($c === 'CachedIterable') foreach ([0, 1, 2, 3] as $k) $s["source $k"] = static function () use ($q, $k) {
        $h = new T('#h'); $g = (static function () use ($h) { yield Life::get('#a') => Life::get('#b'); yield 2 => Life::get('#c'); yield $h; })();
        $o = new $q($g); $h->x = $o; unset($g); $it = $o->getIterator(); for ($i = 0; $i < $k && $it->valid(); $i++) $it->next(); unset($it, $h);
        gc_collect_cycles(); if (!in_array('#h', Life::toks())) throw new Violation('source collected while in use'); if ($k === 3) expect(3, count($o), 'count');
        unset($o); gc_collect_cycles(); Life::check(null, 'collected');
    };
    return $s;
}
/* whose histories are also executed for leaks, and which of their jobs in the quick tier */
const C20_LEAK = ['c01' => '/./', 'c02' => '/./', 'c03' => '/./', 'c04' => '/./', 'c05' => '/./', 'c06' => '/./', 'c07' => '/./', 'c08' => '/./', 'c09' => '/./', 'c10' => '/./', 'c11' => '/./', 'c12' => '/./', 'c13' => '/./', 'c15' => '/./', 'c16' => '/./', 'c17' => '/./', 'c18' => '/./', 'c19' => '/./', 'c21' => '/^(?!source-(?!Cached))/', 'c22' => '/./', 'c23' => '/./', 'c24' => '/./'];
function c20_sub(string $s) { return $GLOBALS["subsystems"][$s] ??= require __DIR__ . "/$s.php"; }
return [
    'jobs' => function ($tier) {
        $th = $tier === 'thorough'; $jobs = [];
        foreach (Uni::KIND as $c => $k) {
            $any = in_array($c, Uni::ANYVALUE); $mut = in_array($c, Uni::MUTABLE);
            if ($any && $mut) {
                $jobs[] = ['name' => "ops2-$c", 'cls' => $c, 'part' => 'ops', 'depth' => 2, 'sizes' => $th ? [0, 1, 2, 3, 4, 5, 7, 8] : [0, 1, 2, 3, 5], 'ways' => 1, 'flavours' => $th ? ['obj', 'arr', 'mix'] : ['mix'], 'weight' => 20, 'bound' => 'every sequence of two operations, alive values compared with reachable ones after each step, with and without outside holders'];
                $jobs[] = ['name' => "ops1-$c", 'cls' => $c, 'part' => 'ops', 'depth' => 1, 'sizes' => [0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 33], 'ways' => 99, 'flavours' => ['obj', 'arr', 'mix'], 'weight' => 8, 'bound' => 'every single operation, sizes around growth boundaries, every construction route'];
                if ($th) for ($s = 0; $s < 6; $s++) $jobs[] = ['name' => "ops3-$c-$s", 'cls' => $c, 'part' => 'ops', 'depth' => 3, 'shard' => $s, 'nshards' => 6, 'sizes' => [0, 1, 2, 3], 'ways' => 1, 'flavours' => ['obj'], 'weight' => 40, 'bound' => 'every sequence of three operations'];
            }
            $jobs[] = ['name' => "mem-$c", 'cls' => $c, 'part' => 'ops', 'depth' => $th ? 2 : 1, 'mode' => 'zmm', 'measure' => 1, 'sizes' => $th ? [0, 1, 2, 3, 5, 8] : [0, 1, 2, 3, 5, 8, 9, 17], 'ways' => 99, 'flavours' => ['mix', 'str'], 'weight' => 8, 'bound' => 'every operation: the request heap returns to its size before the history'];
            foreach (['asan', 'zmm'] as $mode) {
                $jobs[] = ['name' => "read-$c-$mode", 'cls' => $c, 'part' => 'read', 'mode' => $mode, 'measure' => (int)($mode === 'zmm'), 'sizes' => [0, 1, 2, 3, 5, 9], 'flavours' => ['mix', 'obj', 'str'], 'weight' => 6, 'bound' => 'every reader, conversion, iterator pattern and failing callback, every construction route'];
                $jobs[] = ['name' => "fault-$c-$mode", 'cls' => $c, 'part' => 'fault', 'mode' => $mode, 'measure' => (int)($mode === 'zmm'), 'weight' => 4, 'bound' => 'construction failing at every protocol call / element / payload position'];
            }
            if ($any) $jobs[] = ['name' => "gc-$c", 'cls' => $c, 'part' => 'gc', 'weight' => 6, 'bound' => 'a cycle through every position of collections of sizes 1..17 built by every route'];
        }
        foreach (['asan', 'zmm'] as $mode) $jobs[] = ['name' => "functions-$mode", 'cls' => '', 'part' => 'fn', 'mode' => $mode, 'measure' => (int)($mode === 'zmm'), 'weight' => 4, 'bound' => 'every function x source x callback x fault point'];
        $jobs[] = ['name' => 'reenter', 'cls' => '', 'part' => 'reenter', 'weight' => 1, 'bound' => 'a constructor source that inserts into the collection under construction, every mutable class'];
        foreach (C20_LEAK as $s => $re) foreach (c20_sub($s)['jobs']('quick') as $j) if (($j['mode'] ?? 'asan') === 'asan' && ($j['kind'] ?? '') !== 'scale' && preg_match($re, $j['name']))
            $jobs[] = ['name' => 'leak-' . strtoupper($s) . '/' . $j['name'], 'part' => 'leak', 'mode' => 'zmm', 'sub' => $s, 'job' => $j, 'weight' => $j['weight'] ?? 1, 'bound' => 'every history of ' . strtoupper($s) . ' executed again: the allocator holds as many bytes afterwards as before'];
        return [...$jobs, ...Scale::jobs(Uni::ANYVALUE, 'life', $tier)];
    },
    'sys' => fn($job) => (Leak::$on = true) ? c20_sub($job['sub'])['sys']($job['job']) : null,
    'run' => function ($job) {
        if (($job['kind'] ?? '') === 'scale') { Scale::run($job); return; }
        if (($job['part'] ?? '') === 'leak') {
            Leak::$on = true;
            try { c20_sub($job['sub'])['run']($job['job']); }
            catch (HarnessError $e) { throw $e; }
            catch (Violation $e) { if (str_contains($e->getMessage(), 'are not released')) throw $e; St::$capped = true; St::note('functional mismatch, decided by the other checks: ' . $job['name']); }
            return;
        }
       
        $c = $job['cls']; Life::$measure = !empty($job['measure']);
        $case = static function ($id, callable $f) { Cases::run($id, static function () use ($id, $f) { St::$states++; St::$traces++; life_run($f, json_encode($id)); if (St::$states % 211 === 3) St::sample($id); }); };
        switch ($job['part']) {
            case 'ops':
                $any = in_array($c, Uni::ANYVALUE); $si = 0;
                foreach ($job['sizes'] as $n) foreach (array_slice(Uni::ways($c), 0, $job['ways']) as $w) foreach ($any ? $job['flavours'] : ['mix'] as $fl) foreach ($any && !Life::$measure ? [false, true] : [false] as $keep) {
                    $e = c20_entries($c, $n, $fl);
                    $next = 0; Cases::run(['size', $n, $w, $fl], static function () use (&$next, $c, $e, $w, $fl) { [$next] = c20_history($c, $e, $w, $fl, [], false); Life::reset(); });
                    if (Cases::$only !== null) $next = 99;
                    if (!in_array($c, Uni::MUTABLE)) $next = 1;
                    $rec = static function (array $idx) use (&$rec, $case, $c, $e, $w, $fl, $keep, $job, $n, &$si) {
                        $nx = 0; $nm = [];
                        if (count($idx) === 2 && isset($job['nshards']) && ($si++ % $job['nshards']) !== $job['shard']) return;
                        $case([$n, $w, $fl, $keep, $idx], static function () use (&$nx, &$nm, $c, $e, $w, $fl, $idx, $keep) { [$nx, $nm] = c20_history($c, $e, $w, $fl, $idx, $keep); });
                        if (Cases::$only !== null) $nx = 99; elseif ($nm) St::outcome("$c " . end($nm));
                        unset($nm);
                        if (count($idx) < $job['depth']) for ($i = 0; $i < $nx; $i++) $rec([...$idx, $i]);
                    };
                    for ($i = 0; $i < $next; $i++) $rec([$i]);
                    unset($rec);
                }
                St::$maxdepth = $job['depth'];
                break;
            case 'read':
                $any = in_array($c, Uni::ANYVALUE);
                foreach ($job['sizes'] as $n) foreach (Uni::ways($c) as $w) foreach ($any ? $job['flavours'] : ['mix'] as $fl) foreach (c20_readers($c) as $r) {
                    $e = c20_entries($c, $n, $fl); $twice = in_array($r, ['>remove', '>offsetUnset', 'clonemod', '>setInt8', '()rewind', 'foreach', 'foreachbreak', 'iter', 'foreachthrow', 'spread', '>get', 'badcall', 'iforeach', 'iforeachbreak', 'reconstruct', 'badreconstruct']);
                    $case([$n, $w, $fl, $r], static function () use ($c, $e, $w, $r, $twice) {
                        $o = c20_make($c, $e, $w); $m = Life::content($o); c20_read($c, $o, $r, $e); St::$transitions++;
                        if ($twice) $m = Life::content($o); Life::check($m, "$r"); if (!$twice) expect($m, Life::content($o), 'content after reading');
                        c20_read($c, $o, $r, $e); unset($o); Life::check(null, "$r, collection destroyed"); });
                    if ($n === 3) St::outcome("$c $r");
                }
                break;
            case 'fault': foreach (c20_faults($c) as $id => $f) { $case($id, $f); St::$transitions++; St::outcome("$c " . explode(' ', $id)[0]); } break;
            case 'reenter': foreach (Uni::MUTABLE as $c) if (in_array($c, Uni::ANYVALUE)) $case($c, static function () use ($c) { // see known finding RECON-LEAK
                $o = Uni::make($c, [], 'gen'); outcome(static fn() => $o->__construct((static function () use ($o, $c) { Uni::insertOne($c, $o, Life::res(Uni::pairy($c) ? ['#in', '#in'] : '#in')); yield Life::get('#a'); })()));
                $m = Life::content($o); unset($o); gc_collect_cycles(); if (in_array('#in', Life::toks())) { St::note('KF:RECON-LEAK'); unset(Life::$alive['#in']); } Life::check(null, 'collection destroyed'); });
                break;
            case 'fn': foreach (c20_functions() as $id => $f) { $case($id, $f); St::$transitions++; St::outcome(explode(' ', $id)[0]); } break;
            case 'gc': foreach (c20_cycles($c) as $id => $f) { $case($id, $f); St::$transitions++; } St::outcome("gc $c"); break;
        }
    },
];
