<?php
require_once __DIR__ . '/../lib/values.php';
/* any/all/none/find/fold/includes_value against the foreach polyfills of the documentation, run on identical instrumented sources. */
function pf_any($it, $cb = null) { foreach ($it as $v) if ($cb ? $cb($v) : $v) return true; return false; }
function pf_all($it, $cb = null) { foreach ($it as $v) if (!($cb ? $cb($v) : $v)) return false; return true; }
function pf_none($it, $cb = null) { return !pf_any($it, $cb); }
function pf_find($it, $cb, $d = null) { foreach ($it as $v) if ($cb($v)) return $v; return $d; }
function pf_fold($it, $cb, $i) { foreach ($it as $v) $i = $cb($i, $v); return $i; }
function pf_includes_value($it, $x) { foreach ($it as $v) if ($v === $x) return true; return false; }
final class HIt implements Iterator {
    private int $i = 0; public static array $log = []; public static ?array $fault = null;
    public function __construct(private array $e) {}
    private function ev($m) { self::$log[] = $m . $this->i; if (self::$fault === [$m, $this->i]) throw new Boom; }
    public function rewind(): void { $this->i = 0; $this->ev('rewind'); }
    public function valid(): bool { if (self::$fault === ['valid', $this->i]) throw new Boom; return $this->i < count($this->e); }
    public function current(): mixed { $this->ev('current'); return fresh($this->e[$this->i]); }
    public function key(): mixed { return ['not', 'a', 'key']; }
    public function next(): void { $this->i++; $this->ev('next'); }
}
final class HAgg implements IteratorAggregate { public function __construct(private $s) {} public function getIterator(): Traversable { return $this->s; } }
function fresh($v) { return is_string($v) ? strrev(strrev($v)) : (is_array($v) ? array_map(static fn($x) => $x, $v) : $v); }
function hgen(array $e) { HIt::$log[] = 'rewind0'; foreach ($e as $i => $v) { HIt::$log[] = "current$i"; if (HIt::$fault === ['current', $i]) throw new Boom; yield 'k' => fresh($v); } if (HIt::$fault === ['valid', count($e)]) throw new Boom; }
function &hrgen(array $e) { HIt::$log[] = 'rewind0'; foreach ($e as $i => &$v) { HIt::$log[] = "current$i"; if (HIt::$fault === ['current', $i]) throw new Boom; yield $v; } if (HIt::$fault === ['valid', count($e)]) throw new Boom; }
const HKINDS = ['packed', 'hash', 'holes', 'headhole', 'refs', 'it', 'agg', 'gen', 'refgen', 'aggagg', 'arrayit', 'vector', 'cached'];
function hsrc(string $k, array $e) {
    switch ($k) {
        case 'packed': return $e;
        case 'hash': $r = []; foreach ($e as $i => $v) $r["k$i"] = $v; return $r;
        case 'holes': $r = []; foreach ($e as $v) { $r[] = $v; $r[] = 'DEL'; } for ($i = 0; $i < count($e); $i++) unset($r[$i * 2 + 1]); return $r;
        case 'headhole': $r = ['x' => 1, 'y' => 2]; foreach ($e as $i => $v) { $r[$i] = $v; $r["z$i"] = 1; } unset($r['x'], $r['y']); foreach ($e as $i => $v) unset($r["z$i"]); return $r;
        case 'refs': $r = []; foreach ($e as $i => $v) { $r[$i] = $v; $GLOBALS['hk'][] = &$r[$i]; } $GLOBALS['hk'] = []; static $keep; $keep = []; foreach ($r as $i => $_) $keep[] = &$r[$i]; return $r;
        case 'it': return new HIt($e);
        case 'agg': return new HAgg(new HIt($e));
        case 'aggagg': return new HAgg(new HAgg(hgen($e)));
        case 'gen': return hgen($e);
        case 'refgen': return hrgen($e);
        case 'arrayit': return new ArrayIterator($e);
        case 'vector': return new Teds\Vector($e);
        case 'cached': $f = HIt::$fault; if ($f && $f[0] === 'rewind') HIt::$fault = null; $r = new Teds\CachedIterable(new HIt($e)); HIt::$fault = $f; return $r;
    }
}
function hcompare(string $fn, string $kind, array $e, callable $args, string $what): void {
    $run = static function (bool $native) use ($fn, $kind, $e, $args) {
        HIt::$log = []; $calls = []; $src = hsrc($kind, $e); $before = is_array($src) ? repr($src) : '';
        $a = $args($calls); $o = outcome(static fn() => ($native ? "Teds\\$fn" : "pf_$fn")($src, ...$a));
        if (is_array($src) && repr($src) !== $before) throw new Violation("$fn changed the array it was given");
        return [array_slice($o, 0, 2), $calls, array_filter(HIt::$log, static fn($l) => $l[0] !== 'r')];
    };
    [$po, $pc, $pl] = $run(false); [$no, $nc, $nl] = $run(true);
    if ($po[0] !== $no[0] || !same($po[1], $no[1])) throw new Violation("$what: returned " . show($no) . ', the polyfill ' . show($po));
    if (!same($pc, $nc)) throw new Violation("$what: callback calls " . show($nc) . ', polyfill ' . show($pc));
    if ($pl !== $nl) throw new Violation("$what: source calls " . json_encode($nl) . ', polyfill ' . json_encode($pl));
    St::$transitions++; St::$traces++; St::outcome("$fn $kind " . ($no[0] === 'x' ? $no[1] : gettype($no[1])));
}
function hcallbacks(): array { // name => callback factory taking the call log; a callback may throw at a given call
    $r = [];
    foreach (['id' => static fn($v) => $v, 'not' => static fn($v) => !$v, 'arr' => static fn($v) => $v ? [0] : [], 'str' => static fn($v) => $v ? 'x' : '0', 'flt' => static fn($v) => $v ? 0.1 : 0.0, 'null' => static fn($v) => null, 'obj' => static fn($v) => new Obj('z'), 'nan' => static fn($v) => NAN] as $k => $f) $r[$k] = static function (array &$calls) use ($f) { return static function ($v) use (&$calls, $f) { $calls[] = [func_num_args(), $v]; return $f($v); }; };
    foreach ([0, 1, 2, 3] as $j) foreach ([true, false] as $t) $r["throw$j" . ($t ? 't' : 'f')] = static function (array &$calls) use ($j, $t) { return static function ($v) use (&$calls, $j, $t) { $calls[] = $v; if (count($calls) === $j + 1) throw new Boom; return $t; }; };
    return $r;
}
function c16_mutate(array $job): void {
    $mk = ['Vector' => 1, 'Deque' => 1, 'LowMemoryVector' => 1, 'StrictHashSet' => 1, 'StrictHashMap' => 1, 'StrictTreeMap' => 1, 'StrictTreeSet' => 1, 'ArrayObject' => 1, 'MutableIterable' => 1];
    $acts = ['replace' => static function ($o) { $k = null; if ($o instanceof Teds\MutableIterable) { if (count($o)) $o->setValueAt(0, 'new' . count($o)); return; } if ($o instanceof ArrayAccess) foreach ($o as $k => $v) { $o[$k] = 'new' . mt_getrandmax(); break; } },
        'replaceall' => static function ($o) { if ($o instanceof Teds\MutableIterable) { for ($i = 0; $i < count($o); $i++) $o->setValueAt($i, "n$i" . count($o)); return; } if ($o instanceof ArrayAccess) { $ks = []; foreach ($o as $k => $v) $ks[] = $k; foreach ($ks as $k) $o[$k] = 'new' . count($o); } },
        'clear' => static function ($o) { $o instanceof ArrayObject ? $o->exchangeArray([]) : $o->clear(); },
        'grow' => static function ($o) { for ($i = 0; $i < 9; $i++) { $x = "g$i" . count($o); if (count($o) > 40) return; if ($o instanceof Teds\MutableIterable) $o->push($x, $x); elseif ($o instanceof ArrayObject) $o[] = $x; elseif (method_exists($o, 'add')) $o->add($x); elseif (method_exists($o, 'push')) $o->push($x); else $o[$x] = $x; } },
        'pop' => static function ($o) { if (method_exists($o, 'pop') && count($o)) $o->pop(); elseif ($o instanceof ArrayObject) foreach ($o as $k => $_) { unset($o[$k]); break; } },
        'shift' => static function ($o) { if (method_exists($o, 'popFront') && count($o)) $o->popFront(); elseif (method_exists($o, 'remove')) foreach ($o as $v) { $o->remove($v); break; } }];
    foreach ($mk as $cls => $_) for ($n = 1; $n <= $job['L']; $n++) foreach ($acts as $an => $act) for ($j = 0; $j < $n; $j++) foreach (['any', 'all', 'none', 'find', 'fold'] as $fn) foreach (['stop', 'go'] as $ret) Cases::run([$cls, $n, $an, $j, $fn, $ret], static function () use ($cls, $n, $act, $j, $fn, $ret, $an) {
        $res = [];
        foreach ([false, true] as $native) {
            $e = []; for ($i = 0; $i < $n; $i++) $e["k$i"] = strrev("v$i") . $n; $q = $cls === 'ArrayObject' ? $cls : "Teds\\$cls"; $o = new $q($e); unset($e); $calls = []; $c = 0;
            $cb = static function (...$a) use ($o, $act, $j, &$c, &$calls, $ret, $fn) { $v = $a[count($a) - 1]; if ($c++ > 60) throw new Boom; if ($c - 1 === $j) $act($o); $calls[] = $v; if ($fn === 'fold') return [$a[0], $v]; return ($ret === 'stop' && $c - 1 === $j) !== ($fn === 'all'); };
            $args = $fn === 'fold' ? [$cb, 'i'] : [$cb]; $r = outcome(static fn() => ($native ? "Teds\\$fn" : "pf_$fn")($o, ...$args)); $res[] = [array_slice($r, 0, 2), $calls, $o instanceof ArrayObject ? $o->getArrayCopy() : $o->values()];
        }
        if (!same($res[0], $res[1])) throw new Violation("$fn over a $cls of $n whose callback does $an at call $j: " . show($res[1]) . ', polyfill ' . show($res[0]));
        St::$transitions++; St::$traces++; St::outcome("mutate $cls $an");
    });
    // elements that are references to a variable the callback assigns
    for ($n = 1; $n <= $job['L']; $n++) for ($rp = 0; $rp < $n; $rp++) for ($j = 0; $j < $n; $j++) foreach (['any', 'all', 'none', 'find', 'fold'] as $fn) foreach (['stop', 'go'] as $ret) foreach (['array', 'keyed', 'iter'] as $kind) foreach (['str', 'arr', 'obj', 'unset'] as $to) Cases::run(['ref', $n, $rp, $j, $fn, $ret, $kind, $to], static function () use ($n, $rp, $j, $fn, $ret, $kind, $to) {
        $res = [];
        foreach ([false, true] as $native) {
            $x = strrev("v$rp") . $n; $e = []; for ($i = 0; $i < $n; $i++) { $k = $kind === 'array' ? $i : "k$i"; if ($i === $rp) $e[$k] = &$x; else $e[$k] = strrev("v$i") . $n; } $calls = []; $c = 0; $box = (object)['x' => null]; $box->x = &$x;
            $src = $kind === 'iter' ? new ArrayIterator($e) : $e; unset($e);
            $cb = static function (...$a) use ($box, $j, &$c, &$calls, $ret, $fn, $to) { $v = $a[count($a) - 1]; if ($c++ === $j) { if ($to === 'unset') unset($box->x); else $box->x = match ($to) { 'str' => strrev('changed'), 'arr' => [strrev('changed')], 'obj' => new Obj('c') }; } $calls[] = $v; if ($fn === 'fold') return [$a[0], $v]; return ($ret === 'stop' && $c - 1 === $j) !== ($fn === 'all'); };
            $args = $fn === 'fold' ? [$cb, 'i'] : [$cb]; $r = outcome(static fn() => ($native ? "Teds\\$fn" : "pf_$fn")($src, ...$args)); $res[] = [array_slice($r, 0, 2), $calls]; unset($x, $box, $cb, $args, $src, $r);
        }
        if (!same($res[0], $res[1])) throw new Violation("$fn over $kind of $n, element $rp is a reference assigned by call $j: " . show($res[1]) . ', polyfill ' . show($res[0]));
        St::$transitions++; St::$traces++; St::outcome("ref $fn $kind");
    });
    Cases::run('alias', static function () {
        HIt::$log = []; $x = 'a'; $arr = [&$x]; $t = static fn($v) => true; $rf = static function &($i, $v) use (&$x) { return $x; };
        foreach ([$arr, new ArrayIterator($arr), hrgen(['a'])] as $i => $src) { $x = 'a'; $r = array_map('Teds\find', [$src], [$t]); $x = 'b'; expect(['a'], $r, "find() result aliases the source (source $i)"); }
        foreach ([$arr, new ArrayIterator($arr)] as $i => $src) { $x = 'a'; $r = array_map('Teds\fold', [$src], [$rf], [0]); $x = 'b'; expect(['a'], $r, "fold() result aliases a variable (source $i)"); $x = 'a'; $r = array_map('Teds\fold', [$src], [static fn($i, $v) => $v], [0]); $x = 'b'; expect(['a'], $r, 'fold() result aliases an element'); }
        $x = 'a'; $r = Teds\unique_values($arr); $r2 = Teds\unique_values([&$x, 'z']); $r3 = array_map('Teds\array_value_first', [$arr]); $r4 = array_map('Teds\array_value_last', [$arr]); $x = 'b'; expect(['a'], $r, 'unique_values alias'); expect(['a', 'z'], $r2, 'unique_values alias'); expect(['a'], $r3, 'array_value_first alias'); expect(['a'], $r4, 'array_value_last alias');
        $x = 'a'; $b = Teds\binary_search($arr, 'a'); $x = 'b'; expect('a', $b['value'], 'binary_search alias');
    });
}
return [
    'jobs' => function ($tier) {
        $th = $tier === 'thorough'; $jobs = [];
        foreach (HKINDS as $k) {
            $jobs[] = ['name' => "values-$k", 'kind' => 'values', 'src' => $k, 'L' => $th ? 3 : 2, 'weight' => 10, 'bound' => 'every list of at most ' . ($th ? 3 : 2) . ' of 15 truthy/falsy/confusable values, every function, 8 callbacks plus none'];
            $jobs[] = ['name' => "faults-$k", 'kind' => 'faults', 'src' => $k, 'L' => $th ? 5 : 4, 'weight' => 10, 'bound' => 'every list of at most ' . ($th ? 5 : 4) . ' truthy/falsy elements, the callback throwing at every call, the source throwing at every protocol call'];
        }
        $jobs[] = ['name' => 'firstlast', 'kind' => 'firstlast', 'L' => $th ? 6 : 5, 'weight' => 6, 'bound' => 'array_value_first/last on every array obtained by deleting any subset of at most ' . ($th ? 6 : 5) . ' entries, packed, string-keyed, mixed, with references, at every internal pointer position'];
        $jobs[] = ['name' => 'mutate', 'kind' => 'mutate', 'L' => $th ? 4 : 3, 'weight' => 8, 'bound' => 'callbacks that replace, remove or add elements of the collection being searched (8 collections), at every call, lists of at most ' . ($th ? 4 : 3) . ' elements; results handed out by array_map are not references into the caller'];
        return $jobs;
    },
    'run' => function ($job) {
        if ($job['kind'] === 'mutate') { c16_mutate($job); return; }
        if ($job['kind'] === 'firstlast') {
            $L = $job['L']; for ($n = 0; $n <= $L; $n++) for ($mask = 0; $mask < 1 << $n; $mask++) foreach (['int', 'str', 'mixed', 'refs', 'desc'] as $kind) Cases::run([$n, $mask, $kind], static function () use ($n, $mask, $kind) {
                $vals = [null, 'a', 0, [1], 2.5, new Obj('q')]; $a = []; $hold = []; for ($i = 0; $i < $n; $i++) { $k = match ($kind) { 'int', 'refs' => $i, 'str' => "k$i", 'mixed' => $i % 2 ? "k$i" : $i, 'desc' => 100 - $i }; $a[$k] = fresh($vals[$i]); if ($kind === 'refs') $hold[] = &$a[$k]; } $ks = array_keys($a); for ($i = 0; $i < $n; $i++) if ($mask >> $i & 1) unset($a[$ks[$i]]);
                for ($p = 0; $p <= count($a); $p++) { reset($a); for ($j = 0; $j < $p; $j++) next($a); $k = key($a); $w = array_values($a); $before = repr($a); $c = count($w);
                    expect($c ? $w[0] : null, Teds\array_value_first($a), 'array_value_first'); expect($c ? $w[$c - 1] : null, Teds\array_value_last($a), 'array_value_last'); expect($k, key($a), 'internal pointer'); expect($before, repr($a), 'array unchanged'); St::$transitions += 2; }
                $f = Teds\array_value_first($a); $l = Teds\array_value_last($a); if ($kind === 'refs' && count($a)) { $f0 = repr($f); foreach ($hold as &$h) $h = 'changed'; unset($h); expect($f0, repr($f), 'returned value is not a reference'); }
                $b = $a; expect(true, Teds\is_same_array_handle($a, $b), 'same handle'); $b['new'] = 1; expect(false, Teds\is_same_array_handle($a, $b), 'different handle'); St::$states++; St::$traces++; });
            return;
        }
        $kind = $job['src']; $cbs = hcallbacks(); $x = new Ctx; $isarr = in_array($kind, ['packed', 'hash', 'holes', 'headhole', 'refs']);
        HIt::$fault = null;
        if ($job['kind'] === 'values') {
            $al = $x->vs(['N', 'F', 'T', 'i0', 'i1', 'd0', 'q', 's', 's0', 'sa', [], ['i0'], 'o1', 'sfalse', 'z']); $seqs = [[]]; $cur = [[]]; for ($l = 0; $l < $job['L']; $l++) { $nx = []; foreach ($cur as $s) foreach ($al as $i => $_) $nx[] = [...$s, $i]; $cur = $nx; $seqs = [...$seqs, ...$nx]; }
            foreach ($seqs as $s) Cases::run($s, static function () use ($s, $al, $kind, $cbs) {
                $e = array_map(static fn($i) => $al[$i], $s); $w = json_encode($s);
                foreach (['any', 'all', 'none'] as $fn) { hcompare($fn, $kind, $e, static fn(&$c) => [], "$fn $w"); hcompare($fn, $kind, $e, static fn(&$c) => [null], "$fn $w null"); foreach (['id', 'not', 'arr', 'str', 'flt', 'null', 'obj', 'nan'] as $cb) hcompare($fn, $kind, $e, static function (&$c) use ($cbs, $cb) { return [$cbs[$cb]($c)]; }, "$fn $w $cb"); hcompare($fn, $kind, $e, static fn(&$c) => ['is_string'], "$fn $w is_string"); }
                foreach (['id', 'not', 'arr', 'null'] as $cb) foreach ([[], [null], [$al[12]], ['dflt']] as $d) hcompare('find', $kind, $e, static function (&$c) use ($cbs, $cb, $d) { return [$cbs[$cb]($c), ...$d]; }, "find $w $cb");
                hcompare('find', $kind, $e, static fn(&$c) => ['is_array'], "find $w is_array");
                foreach ([null, 0, 'init', [], $al[12]] as $init) { hcompare('fold', $kind, $e, static function (&$c) use ($init) { return [static function ($a, $v) use (&$c) { $c[] = [func_num_args(), $a, $v]; return [$a, $v]; }, $init]; }, "fold $w"); hcompare('fold', $kind, $e, static function (&$c) use ($init) { return [static fn($a, $v) => $v, $init]; }, "fold last $w"); hcompare('fold', $kind, $e, static function (&$c) use ($init) { return [static fn($a, $v) => $a, $init]; }, "fold first $w"); }
                foreach ([...$al, 'zz', -0.0, 1.0, ['0']] as $t) hcompare('includes_value', $kind, $e, static fn(&$c) => [fresh($t)], "includes_value $w " . show($t));
                St::$states++;
            });
            return;
        }
        for ($n = 0; $n <= $job['L']; $n++) for ($mask = 0; $mask < 1 << $n; $mask++) {
            $e = []; for ($i = 0; $i < $n; $i++) $e[] = $mask >> $i & 1 ? "v$i" : ($i % 2 ? '' : 0);
            $faults = [null]; if (!$isarr && !in_array($kind, ['arrayit', 'vector'])) foreach (['rewind', 'valid', 'current', 'next'] as $m) for ($i = 0; $i <= $n; $i++) if (!($m === 'rewind' && $i)) $faults[] = [$m, $i];
            foreach ($faults as $ft) Cases::run([$n, $mask, $ft], static function () use ($n, $e, $ft, $kind, $cbs) {
                HIt::$fault = $ft; $w = json_encode([$e, $ft]);
                try {
                    foreach ($cbs as $cn => $cb) { if ($ft !== null && !in_array($cn, ['id', 'not', 'throw1t', 'throw1f'])) continue; foreach (['any', 'all', 'none', 'find'] as $fn) hcompare($fn, $kind, $e, static function (&$c) use ($cb) { return [$cb($c)]; }, "$fn $w $cn"); }
                    foreach (['any', 'all', 'none'] as $fn) hcompare($fn, $kind, $e, static fn(&$c) => [], "$fn $w");
                    for ($j = -1; $j <= $n; $j++) hcompare('fold', $kind, $e, static function (&$c) use ($j) { return [static function ($a, $v) use (&$c, $j) { $c[] = [$a, $v]; if (count($c) === $j + 1) throw new Boom; return $a . $v; }, 'i']; }, "fold $w throwing at $j");
                    foreach (['', 0, 'v1', 'v2', 'zz'] as $t) hcompare('includes_value', $kind, $e, static fn(&$c) => [$t], "includes_value $w");
                } finally { HIt::$fault = null; }
                St::$states++;
            });
        }
    },
];
