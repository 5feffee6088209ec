<?php
require_once __DIR__ . '/../lib/scale.php';
require_once __DIR__ . '/../lib/uni.php';
/* Every class x content x construction route x copying route: the copy is a distinct usable collection of the same class and content,
   every later operation on it (and on the original) behaves as on a collection built directly, and neither sees the other's changes. */
function c18_alpha(string $c): array {
    return match ($c) {
        'IntVector', 'SortedIntVectorSet', 'ImmutableSortedIntSet' => ['i0', 'i-1', 'i127', 'i-128', 'i128', 'i-32769', 'i40000', 'i3000000000', 'M', 'm'],
        'BitVector' => ['T', 'F'],
        'ImmutableSortedStringSet' => ['s', 's0', 'sab', 'b00', 'bff', 's' . str_repeat('x', 127), 's' . str_repeat('y', 128), 's' . str_repeat('z', 252), 's' . str_repeat('w', 253), 's' . str_repeat('v', 256)],
        default => ['N', 'F', 'T', 'i0', 'i300', 'd1.5', 'z', 'q', 's', 's0', 's5', ['i1', ['s', 'N']], [], 'o1', 'M'],
    };
}
function c18_hasobj($t): bool { return str_contains(json_encode($t), '"o'); }
function c18_routes(string $c): array {
    $r = ['unser', 'unser2', 'payload', 'nested', 'state', 'export'];
    if ($c !== 'CachedIterable') array_push($r, 'clone', 'clone2', 'cloneunser', 'unserclone', 'cloneiter');
    if (in_array($c, ['IntVector', 'BitVector', 'ImmutableSortedStringSet'])) $r[] = 'spec';
    if (Uni::pairy($c)) $r[] = 'frompairs';
    return $r;
}
function c18_copy($o, string $r) {
    $q = get_class($o);
    switch ($r) {
        case 'unser': return unserialize(serialize($o));
        case 'unser2': return unserialize(serialize(unserialize(serialize($o))));
        case 'payload': $s = serialize($o); $p = $o->__serialize(); return unserialize(preg_replace('/^a:/', 'O:' . strlen($q) . ':"' . $q . '":', serialize($p)));
        case 'nested': $a = unserialize(serialize([$o, 'x' => [$o], 'y' => clone_or($o)])); if ($a[0] !== $a['x'][0]) throw new Violation('unserialize gave two objects for one collection'); if ($a['y'] === $a[0]) throw new Violation('unserialize merged two collections'); return $a[0];
        case 'state': return $q::__set_state((array)$o);
        case 'export': $x = Uni::cls($o) === 'LowMemoryVector' ? "\\$q::__set_state(" . var_export((array)$o, true) . ')' : var_export($o, true); return eval('return ' . $x . ';');
        case 'clone': return clone $o;
        case 'clone2': $d = clone $o; return clone $d;
        case 'cloneunser': return unserialize(serialize(clone $o));
        case 'unserclone': return clone unserialize(serialize($o));
        case 'cloneiter': if ($o instanceof IteratorAggregate) { $it = $o->getIterator(); $it->valid(); $it2 = $o->getIterator(); if ($it2->valid()) $it2->next(); $d = clone $o; unset($it); $GLOBALS['c18it'] = $it2; return $d; } return clone $o;
        case 'spec': return $q::unserialize($o->serialize());
        case 'frompairs': return $q::fromPairs($o->toPairs());
    }
}
function clone_or($o) { return Uni::cls($o) === 'CachedIterable' ? unserialize(serialize($o)) : clone $o; }
function c18_same($o, array $m, bool $ident, string $what): void {
    if ($ident) { Uni::expectContent($o, $m, $what); return; }
    $g = Uni::content($o); $f = static function ($x) { return repr($x); };
    if (Uni::kind(Uni::cls($o)) === 'heap') { $a = array_map($f, $g); $b = array_map($f, $m); sort($a); sort($b); if ($a === $b) return; }
    elseif ($f($g) === $f($m)) return;
    throw new Violation("$what: content is " . show($g) . ', expected ' . show($m));
}
function c18_case(string $c, callable $entries, string $w, string $r, bool $obj, bool $deep): void {
    $ident = !$obj || str_starts_with($r, 'clone') && $r !== 'cloneunser' || in_array($r, ['state', 'frompairs']);
    $mk = static function () use ($c, $entries, $w, $r, $ident) {
        [$e] = $entries(); $o = Uni::make($c, $e, $w); $m = Uni::model($c, $e); $d = c18_copy($o, $r);
        if (!is_object($d) || get_class($d) !== get_class($o)) throw new Violation("$r gave " . show($d)); if ($d === $o) throw new Violation("$r gave the same object");
        return [$o, $d, $m];
    };
    [$o, $d, $m] = $mk();
    c18_same($d, $m, $ident, "$r copy"); Uni::expectContent($o, $m, "original after $r");
    if ($ident) Uni::views($d, $m);
    if (serialize($d) !== serialize(c18_copy($d, 'unser')) && Uni::kind($c) !== 'heap') throw new Violation('serialization of the copy is not stable'); // copying is idempotent
    St::$transitions++; St::$traces++; St::outcome("$c $r");
    if (!$ident || !$deep) return;
    $mutate = static function ($k) use ($c, $m) { $i = 0; $fr = static function () use ($c, &$i, $k) { $x = Uni::sample($c, 1, 20 + $k * 7 + $i++)[0]; return Uni::pairy($c) ? $x[0] : $x; }; return Uni::ops($c, $m, $fr); };
    $ops = $mutate(0);
    foreach ($ops as $op) {
        [$exp, $m2] = Uni::apply($c, $m, $op); $s = json_encode($op, JSON_PARTIAL_OUTPUT_ON_ERROR);
        [$o, $d] = $mk(); Uni::cmp($exp, Uni::exec($d, $op), "copy $s"); Uni::expectContent($d, $m2, "copy after $s"); Uni::expectContent($o, $m, "original after $s on the copy");
        if (str_contains($c, 'Tree')) expect(true, $d->debugIsBalanced(), "balanced after $s");
        $op2 = Uni::ops($c, $m2, static function () use ($c) { static $i = 0; $x = Uni::sample($c, 1, 50 + $i++)[0]; return Uni::pairy($c) ? $x[0] : $x; });
        $o2 = $op2[St::$transitions % count($op2)]; [$exp2, $m3] = Uni::apply($c, $m2, $o2); Uni::cmp($exp2, Uni::exec($d, $o2), "copy $s then " . $o2[0]); Uni::expectContent($d, $m3, "copy after $s, {$o2[0]}");
        [$o, $d] = $mk(); Uni::cmp($exp, Uni::exec($o, $op), "original $s"); Uni::expectContent($o, $m2, "original after $s"); Uni::expectContent($d, $m, "copy after $s on the original");
        unset($o); Uni::expectContent($d, $m, 'copy after the original is gone');
        St::$transitions += 3; St::$traces += 2;
    }
}
function c18_roundtrip(string $c, array $v): void {
    $q = "Teds\\$c"; $o = new $q($v); $m = str_contains($c, 'Set') ? Uni::model($c, $v) : $v; $v = array_values($m); $s = serialize($o);
    $rs = ['unserialize' => unserialize($s), 'unserialize twice' => unserialize(serialize(unserialize($s)))];
    if (method_exists($q, 'unserialize')) $rs['::unserialize'] = $q::unserialize($o->serialize());
    if ($c === 'BitVector') { $b = $o->toBinaryString(); expect(intdiv(count($v) + 7, 8), strlen($b), 'toBinaryString length'); $by = ''; for ($i = 0, $n = count($v); $i < $n; $i += 8) { $x = 0; for ($j = 0; $j < 8 && $i + $j < $n; $j++) if ($v[$i + $j]) $x |= 1 << $j; $by .= chr($x); } expect($by, $b, 'toBinaryString'); $f = $q::fromBinaryString($b); expect($v, array_slice($f->values(), 0, count($v)), 'fromBinaryString'); expect(strlen($b) * 8, count($f), 'fromBinaryString size'); }
    foreach ($rs as $n => $d) { if (!same($d->values(), $v)) throw new Violation("$n of " . show($v) . ' gave ' . show($d->values())); expect(count($v), count($d), "$n count"); foreach ($v as $i => $x) { if (!str_contains($c, 'Set')) { if (!same($d[$i], $x)) throw new Violation("$n of " . show($v) . " at $i"); if ($i > 20) break; } } if ($v && !is_bool($v[0]) && !$d->contains(end($v))) throw new Violation("$n of " . show($v) . ' does not contain its last value'); }
    if (serialize($rs['unserialize']) !== $s) throw new Violation('serialize(unserialize(x)) differs for ' . show($v));
    St::$transitions += count($rs); St::$traces++; St::$states++;
}
function c18_dense(string $c, bool $th): void {
    $L = $th ? 10 : 7; $N = $th ? 300 : 140;
    $al = match ($c) { 'LowMemoryVector' => ['nb' => [null, false, true], 'b' => [false, true], 'i8' => [-128, 127], 'i16' => [-32768, 255], 'i32' => [-2147483648, 65536], 'i64' => [PHP_INT_MIN, 4294967296], 'd' => [0.5, -0.0, INF], 'mix' => [null, 1, 's']],
        'BitVector' => ['b' => [false, true]], 'ImmutableSortedStringSet' => ['s' => []], default => ['i8' => [-128, 127, 0], 'i16' => [-32768, 255], 'i32' => [-2147483648, 65536], 'i64' => [PHP_INT_MIN, 4294967296]] };
    if (str_contains($c, 'Set')) { // strictly increasing contents: every subset of a ladder that steps across every width, and every length
        $ladder = $c === 'ImmutableSortedStringSet' ? ['', "\0", "\0\0", 'a', 'aa', str_repeat('b', 252), str_repeat('b', 253), str_repeat('b', 254), str_repeat('b', 255), str_repeat('b', 256), str_repeat('c', 300), "\xff", str_repeat("\xff", 70000)] : [PHP_INT_MIN, -2147483649, -2147483648, -32769, -32768, -129, -128, 127, 128, 32767, 32768, 2147483647, 2147483648, PHP_INT_MAX];
        if (!$th) $ladder = array_slice($ladder, 0, 13);
        for ($mask = 0, $k = count($ladder); $mask < 1 << $k; $mask++) Cases::run($mask, static function () use ($c, $mask, $ladder) { $v = []; foreach ($ladder as $i => $x) if ($mask >> $i & 1) $v[] = $x; c18_roundtrip($c, $v); St::outcome($c); });
        return;
    }
    foreach ($al as $name => $a) {
        $k = count($a); for ($n = 0; $n <= ($k === 2 ? $L + 3 : $L); $n++) for ($x = 0, $e = $k ** $n; $x < $e; $x++) Cases::run([$name, $n, $x], static function () use ($c, $a, $n, $x, $k, $name) { $v = []; for ($i = 0, $y = $x; $i < $n; $i++, $y = intdiv($y, $k)) $v[] = $a[$y % $k]; c18_roundtrip($c, $v); St::outcome("$c $name"); });
        for ($n = 8; $n <= $N; $n += $n < 40 ? 1 : 7) for ($p = 0; $p < $n; $p += $n < 40 ? 1 : 3) Cases::run([$name, 'odd', $n, $p], static function () use ($c, $a, $n, $p) { $v = array_fill(0, $n, $a[0]); $v[$p] = $a[1]; c18_roundtrip($c, $v); });
    }
}
/* An ImmutableSortedIntSet unserialized from a payload of 1 MiB or more keeps that string as its storage. */
function c18_backed(string $c): void {
    foreach ([1 << 17, (1 << 18) - 1, 1 << 18, (1 << 18) + 1] as $n) foreach (['i32', 'i64'] as $w) foreach (['none', 'orig', 'first', 'payload'] as $drop) Cases::run([$n, $w, $drop], static function () use ($n, $w, $drop) {
        $v = range($w === 'i32' ? 70000 : 5000000000, ($w === 'i32' ? 70000 : 5000000000) + $n - 1); $o = new Teds\ImmutableSortedIntSet($v); $ch = static function ($d, $what) use ($v, $n) { expect($n, count($d), "$what count"); if ($d->values() !== $v) throw new Violation("$what values"); expect(true, $d->contains($v[$n - 1]), "$what contains"); expect(false, $d->contains($v[$n - 1] + 1), "$what contains absent"); expect($v[0], $d->first(), "$what first"); expect($v[$n - 1], $d->last(), "$what last"); };
        $pay = $o->__serialize(); $s = serialize($o); $a = unserialize($s); $ch($a, 'unserialized'); $p2 = $a->__serialize(); expect(true, $p2 === $pay, 'payload of the copy');
        $b = unserialize(serialize($a)); $d = clone $a; $e = clone $d; $k = unserialize(serialize([$a, $a, $b])); expect(true, $k[0] === $k[1], 'identity'); if ($drop === 'orig') { unset($o); } elseif ($drop === 'first') { unset($a); gc_collect_cycles(); } elseif ($drop === 'payload') { $p2[1][0] = 'x'; unset($pay, $p2, $s); }
        foreach (['a', 'b', 'd', 'e'] as $nm) if (isset($$nm)) $ch($$nm, "$nm after $drop"); $ch($k[2], 'nested'); unset($b, $k); $ch($d, 'clone'); $f = unserialize(serialize($d)); unset($d, $a, $o); $ch($e, 'clone of clone'); $ch($f, 'copy of clone'); $it = 0; foreach ($e as $x) { if ($x !== $v[$it++]) throw new Violation('iteration'); } expect($n, $it, 'iterated');
        St::$transitions += 6; St::$traces++; St::$states++; St::outcome("backed $w $drop");
    });
}
return [
    'jobs' => function ($tier) {
        $th = $tier === 'thorough'; $jobs = [];
        foreach (Uni::KIND as $c => $k) {
            $L = $c === 'BitVector' ? ($th ? 9 : 5) : ($th ? 3 : 2);
            for ($s = 0; $s < ($th ? 8 : 1); $s++) $jobs[] = ['name' => "content-$c-$s", 'cls' => $c, 'len' => $L, 'shard' => $s, 'nshards' => $th ? 8 : 1, 'weight' => 10, 'bound' => "every content of at most $L entries over the alphabet, every copying route"];
            $jobs[] = ['name' => "after-$c", 'cls' => $c, 'sizes' => $th ? [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 31, 32, 33, 64, 65] : [0, 1, 2, 3, 5, 8, 9, 17], 'weight' => 15, 'bound' => 'sizes around growth boundaries, every construction route x copying route x every single operation (then a second one) on the copy and on the original'];
        }
        $jobs[] = ['name' => 'cycles', 'cls' => '', 'weight' => 5, 'bound' => 'self-containing collections, shared objects and references inside collections, through serialize/unserialize and clone'];
        foreach (['LowMemoryVector', 'BitVector', 'IntVector', 'ImmutableSortedIntSet', 'SortedIntVectorSet', 'ImmutableSortedStringSet'] as $c) $jobs[] = ['name' => "dense-$c", 'kind' => 'dense', 'cls' => $c, 'th' => $th, 'weight' => 12, 'bound' => 'packed encodings: every content over the two or three smallest symbols of each storage type up to length ' . ($th ? '10' : '7') . ' and every single-odd-element content up to length ' . ($th ? 300 : 140) . ', through serialize and the class specific encodings'];
        $jobs[] = ['name' => 'backed-ImmutableSortedIntSet', 'kind' => 'backed', 'cls' => 'ImmutableSortedIntSet', 'weight' => 12, 'bound' => 'payloads around the length from which the set keeps the serialized string itself as storage, every copying route and every order of releasing the copies'];
        return [...$jobs, ...Scale::jobs(array_keys(Uni::KIND), 'copy', $tier), ...Scale::jobs(array_keys(Uni::KIND), 'mem', $tier, [[1, 7, 64, 300, 2049, 20011]])];
    },
    'run' => function ($job) {
        if (($job['kind'] ?? '') === 'scale') { Scale::run($job); return; }
       
        $c = $job['cls'];
        if (($job['kind'] ?? '') === 'dense') { c18_dense($c, $job['th']); return; }
        if (($job['kind'] ?? '') === 'backed') { c18_backed($c); return; }
        if ($job['name'] === 'cycles') {
            foreach (Uni::ANYVALUE as $c) foreach (['self', 'twice', 'sharedarr', 'nestedcoll'] as $how) Cases::run([$c, $how], static function () use ($c, $how) {
                if (!in_array($c, Uni::MUTABLE) && $how === 'self') return;
                $o = new Obj('shared'); $pair = Uni::pairy($c); $w = static fn($x, $k) => $pair ? [$k, $x] : $x;
                if ($how === 'self') { $d = Uni::make($c, []); Uni::insertOne($c, $d, $w($d, 'k')); Uni::insertOne($c, $d, $w('tail', 'k2')); }
                elseif ($how === 'twice') $d = Uni::make($c, [$w($o, 'a'), $w([$o], 'b'), $w(['x' => $o], 'c')]);
                elseif ($how === 'sharedarr') { $arr = [1, $o]; $d = Uni::make($c, [$w(['l' => $arr], 'a'), $w(['r' => $arr, 1], 'b')]); }
                else { $in = new Teds\Vector([1, $o]); $d = Uni::make($c, [$w($in, 'a'), $w([$in], 'b')]); }
                $o->back = $d; $o->tok = 'shared';
                foreach (['unser', 'clone'] as $r) {
                    if ($r === 'clone' && $c === 'CachedIterable') continue;
                    $x = $r === 'unser' ? unserialize(serialize($d)) : clone $d; $n = count($d); expect($n, count($x), "$r count"); if ($x === $d) throw new Violation('same object');
                    $vals = $pair ? array_column($x->toPairs(), 1) : $x->values(); $objs = []; $walk = static function ($v) use (&$walk, &$objs) { if (is_array($v)) foreach ($v as $y) $walk($y); elseif ($v instanceof Obj) $objs[] = $v; elseif ($v instanceof Teds\Vector && count($v) === 2) foreach ($v as $y) if ($y instanceof Obj) $objs[] = $y; };
                    if ($how === 'self') { $hit = false; foreach ($vals as $v) if ($v === ($r === 'unser' ? $x : $d)) $hit = true; if (!$hit) throw new Violation("$r lost the self reference"); }
                    else { $walk($vals); if (count($objs) < 2) throw new Violation("$r lost shared objects " . show($vals)); foreach ($objs as $p) { if ($p !== $objs[0]) throw new Violation("$r split a shared object"); if ($r === 'unser' && $p->back !== $x) throw new Violation("$r broke the cycle"); if ($r === 'clone' && $p !== $o) throw new Violation('clone copied an element'); } }
                    St::$transitions++; St::$traces++; St::$states++; St::outcome("cycle $c $how $r");
                    unset($x, $vals, $objs, $p); gc_collect_cycles();
                }
                expect(true, count($d) > 0, 'original intact');
            });
            return;
        }
        if (isset($job['sizes'])) {
            foreach ($job['sizes'] as $n) foreach (Uni::ways($c) as $w) foreach (c18_routes($c) as $r) Cases::run([$n, $w, $r], static function () use ($c, $n, $w, $r) { St::$states++; c18_case($c, static fn() => [Uni::sample($c, $n)], $w, $r, false, $n <= 5 || in_array($w, ['ctor', 'pairs', 'churn', 'front']) && in_array($r, ['unser', 'clone', 'state', 'spec'])); });
            return;
        }
        $al = c18_alpha($c);
        if (Uni::pairy($c)) { $al2 = []; foreach ($al as $a) { $al2[] = [$a, 'i5']; $al2[] = ['skey', $a]; } $al = array_values(array_unique($al2, SORT_REGULAR)); if ($job['len'] > 2) $al = array_slice($al, 0, 22); }
        $seqs = [[]]; $all = [[]];
        for ($l = 0; $l < $job['len']; $l++) { $nx = []; foreach ($seqs as $s) foreach ($al as $a) $nx[] = [...$s, $a]; $seqs = $nx; foreach ($nx as $s) $all[] = $s; }
        foreach ($all as $i => $s) {
            if ($i % $job['nshards'] !== $job['shard']) continue;
            $obj = c18_hasobj($s);
            foreach (c18_routes($c) as $r) foreach (array_slice(Uni::ways($c), 0, 1) as $w) {
                if ($obj && $r === 'export') continue;
                Cases::run([$s, $w, $r], static function () use ($c, $s, $w, $r, $obj) { St::$states++; $x = new Ctx; c18_case($c, static function () use ($s, $x) { return [$x->vs($s)]; }, $w, $r, $obj, count($s) <= 1); if (St::$states % 301 === 7) St::sample([$c, $s, $r]); });
            }
        }
    },
];
