<?php
require_once __DIR__ . '/../lib/life.php';
/* Every public method (found by reflection) and every array-syntax operation x every argument tuple over a universe of good and bad arguments,
   with error handlers that record or throw: whenever the call throws, the collection is the one before the call and behaves like it afterwards. */
final class C22 {
    public static ?Closure $h = null;
}
function c22_args(int $n): array {
    $u = ['-1' => -1, '0' => 0, '1' => 1, 'last' => $n - 1, 'n' => $n, 'n+1' => $n + 1, 'max' => PHP_INT_MAX, 'min' => PHP_INT_MIN, '1.5' => 1.5, 'nan' => NAN, '1e30' => 1e30, "'1'" => '1', "'x'" => 'x', 'null' => null, 'true' => true, 'false' => false, '[]' => [], '[1,q]' => [1, 'q'], '300' => 300, '2^32' => 1 << 32, '-2^32' => -1 << 32];
    $r = []; foreach ($u as $k => $v) $r[$k] = static fn() => $v;
    $r['obj'] = static fn() => new Obj('c22'); $r['boom0'] = static fn() => static function () { throw new Boom; };
    $r['boom1'] = static function () { $i = 0; return static function () use (&$i) { if ($i++) throw new Boom; return 1; }; };
    $r['it'] = static fn() => new FaultIt([[1, 2], [3, 4]], false, 5); $r['closure'] = static fn() => static fn($x) => $x;
    return $r;
}
function c22_calls(string $c, int $n): array { // name => fn($o)
    $u = c22_args($n); $calls = []; $rc = new ReflectionClass("Teds\\$c");
    $light = array_intersect_key($u, array_flip(['-1', '0', 'n', '1.5', "'x'", 'null', 'true', '[1,q]', 'obj', '300', 'max']));
    foreach ($rc->getMethods(ReflectionMethod::IS_PUBLIC) as $rm) {
        $f = $rm->getName(); if ($rm->isStatic() || $rm->isDestructor()) continue;
        $p = $rm->getNumberOfParameters(); $var = $rm->isVariadic();
        $uu = in_array($f, ['setSize', 'reserve']) ? array_diff_key($u, ['max' => 1, '1e30' => 1, '2^32' => 1]) : $u;
        $calls["$f()"] = static fn($o) => $o->$f();
        foreach ($uu as $ka => $a) {
            $calls["$f($ka)"] = static fn($o) => $o->$f($a());
            if ($p < 2 && !$var) { if ($ka === '0' || $ka === "'x'") $calls["$f($ka,extra)"] = static fn($o) => $o->$f($a(), 1); continue; }
            foreach ($uu as $kb => $b) {
                $calls["$f($ka,$kb)"] = static fn($o) => $o->$f($a(), $b());
                if ($var && isset($light[$ka]) && isset($light[$kb])) foreach ($light as $kc => $x) $calls["$f($ka,$kb,$kc)"] = static fn($o) => $o->$f($a(), $b(), $x());
            }
        }
    }
    // a bad argument at every position behind any number of good ones, and all-bad tails
    foreach ($rc->getMethods(ReflectionMethod::IS_PUBLIC) as $rm) {
        if (!$rm->isVariadic() || $rm->isStatic()) continue;
        $f = $rm->getName(); $lead = $f === 'insert' ? [0, 1, $n, intdiv($n, 2)] : ['-'];
        foreach ($lead as $off) foreach ([2, 3, 4, 5, 9, 17] as $k) for ($i = 0; $i < $k; $i++) foreach ($k > 3 ? $light : $u as $ka => $a) foreach ($i < $k - 1 ? ['', '*'] : [''] as $rest)
            $calls["$f([$off]$k:$i$rest $ka)"] = static function ($o) use ($f, $off, $k, $i, $a, $rest, $c, $ka) {
                static $cache = []; $good = $cache[$k] ??= Uni::sample($c, $k, 60); if (Uni::pairy($c)) { $good = array_column($good, 0); }
                $good[$i] = $a(); if ($rest !== '') for ($j = $i + 1; $j < $k; $j++) $good[$j] = $a();
                if ($off !== '-') array_unshift($good, $off);
                return $o->$f(...$good); };
    }
    foreach ($u as $ka => $a) {
        $calls["read[$ka]"] = static fn($o) => $o[$a()]; $calls["isset[$ka]"] = static fn($o) => isset($o[$a()]); $calls["empty[$ka]"] = static fn($o) => empty($o[$a()]); $calls["unset[$ka]"] = static function ($o) use ($a) { unset($o[$a()]); };
        $calls["append $ka"] = static function ($o) use ($a) { $o[] = $a(); }; $calls["inc[$ka]"] = static function ($o) use ($a) { $o[$a()]++; }; $calls["cat[$ka]"] = static function ($o) use ($a) { $o[$a()] .= 'z'; };
        $calls["nest[$ka]"] = static function ($o) use ($a) { $o[$a()][] = 1; }; $calls["nest2[$ka]"] = static function ($o) use ($a) { $o[$a()]['x']['y'] = 1; }; $calls["ref[$ka]"] = static function ($o) use ($a) { $x = &$o[$a()]; $x = 5; };
        foreach ($u as $kb => $b) $calls["[$ka]=$kb"] = static function ($o) use ($a, $b) { $o[$a()] = $b(); };
    }
    $calls['refappend'] = static function ($o) { $x = &$o[]; $x = 1; }; $calls['prop'] = static function ($o) { $o->foo = 1; }; $calls['propread'] = static fn($o) => $o->foo; $calls['foreachref'] = static function ($o) { foreach ($o as &$v) $v = 1; };
    $calls['nosuch'] = static fn($o) => $o->nosuch(); $calls['call'] = static fn($o) => $o(); $calls['str'] = static fn($o) => (string)$o; $calls['arith'] = static fn($o) => $o + 1;
    return $calls;
}
function c22_print(string $c, $o): string { return repr(Uni::kind($c) === 'heap' ? $o->values() : Uni::content($o)); }
function c22_case(string $c, int $n, string $w, string $name, callable $call, bool $throwing, array &$st, array &$sigs): void {
    if (!isset($st['o'])) { $e = Uni::sample($c, $n); $st['o'] = Uni::make($c, $e, $w); $st['m'] = Uni::model($c, $e); $st['fp'] = c22_print($c, $st['o']); $st['it'] = null; $st['cap'] = method_exists($st['o'], 'capacity') ? $st['o']->capacity() : 0;
        if ($st['o'] instanceof IteratorAggregate) { $it = $st['o']->getIterator(); if ($it->valid()) $it->next(); $st['it'] = $it; $st['at'] = $it->valid() ? repr([$it->key(), $it->current()]) : null; } }
    $o = $st['o']; $GLOBALS['DIAG'] = []; $ex = null;
    set_error_handler($throwing ? static function ($no, $msg) { throw new Boom("diagnostic: $msg"); } : static fn() => true);
    try { $r = $call($o); } catch (Violation $e) { restore_error_handler(); throw $e; } catch (Throwable $e) { $ex = get_class($e); } finally { restore_error_handler(); }
    unset($r, $e); St::$transitions++;
    if ($ex === null) { $st = []; return; } // succeeded: not this property's business; the object may have changed
    if ($name === '__construct(it)' && $n === 0) { $st = []; return; } // an empty collection may accept a second __construct(), which is not an operation on it
    $fp = c22_print($c, $o);
    if ($fp !== $st['fp']) throw new Violation("$name threw $ex but the content changed from " . addcslashes($st['fp'], "\0..\37\177..\377") . ' to ' . addcslashes($fp, "\0..\37\177..\377"));
    expect(count($st['m']), count($o), "count after $name threw");
    if ($st['it']) { $it = $st['it']; $at = $it->valid() ? repr([$it->key(), $it->current()]) : null; if ($at !== $st['at']) throw new Violation("$name threw $ex but an open iterator moved from " . show($st['at']) . ' to ' . show($at)); }
    $sig = preg_replace(['/\(\[.*?\]\d+:\d+(\*?) /', '/-?2\^32|-1|n\+1|\bn\b|max|min|300/', '/\b[01]\b|last/', '/1\.5|nan|1e30/', '/true|false/', '/boom\d|closure|obj|\bit\b/', "/'[1x]'/"], ['(V$1 ', 'O', 'I', 'D', 'B', 'C', 'S'], $name) . $ex; St::outcome(preg_replace('/[(\[ =].*/', '', $name) . " $ex");
    if (isset($sigs[$sig])) return;
    $sigs[$sig] = 1; St::$states++;
    // first time this kind of failure is seen at this size: full observation, then every follow-up operation
    Uni::views($o, $st['m']);
    if (!in_array($c, Uni::MUTABLE)) { $st = []; return; }
    $i = 0; $fr = static function () use ($c, &$i) { $x = Uni::sample($c, 1, 20 + $i++)[0]; return Uni::pairy($c) ? $x[0] : $x; };
    $ops = Uni::ops($c, $st['m'], $fr); $m = $st['m']; $j = crc32($sig) % count($ops);
    for ($k = 0; $k < 4; $k++) { $op = $ops[($j + $k) % count($ops)]; [$exp, $m2] = Uni::apply($c, $m, $op); Uni::cmp($exp, Uni::exec($o, $op), "after the failed $name: " . json_encode($op, JSON_PARTIAL_OUTPUT_ON_ERROR)); Uni::expectContent($o, $m2, "after the failed $name, {$op[0]}"); $m = $m2; }
    $st = []; St::$traces++;
}
return [
    'jobs' => function ($tier) {
        $th = $tier === 'thorough'; $jobs = [];
        foreach (Uni::KIND as $c => $k) {
            foreach ($th ? [0, 1, 2, 3, 4, 5, 8, 9, 16, 17] : [0, 1, 3, 4] as $n) $jobs[] = ['name' => "calls-$c-$n", 'cls' => $c, 'n' => $n, 'ways' => $th ? 99 : ($n === 3 ? 3 : 1), 'weight' => 8, 'bound' => 'every public method and array-syntax form x every argument tuple of the universe, quiet and throwing error handlers'];
            $jobs[] = ['name' => "ctor-$c", 'cls' => $c, 'n' => 3, 'ctor' => 1, 'weight' => 3, 'bound' => 'a fault at every protocol call of the source of every constructor and factory: the original exception reaches the caller'];
        }
        return $jobs;
    },
    'run' => function ($job) {
        $c = $job['cls']; $n = $job['n']; $q = "Teds\\$c"; $pairy = Uni::pairy($c);
        if (isset($job['ctor'])) {
            for ($len = 0; $len < 4; $len++) for ($at = 0; $at < 24; $at++) foreach (['ctor' => static fn($s) => new $q($s), 'agg' => null, 'fromPairs' => static fn($s) => $q::fromPairs($s), 'gen' => null] as $how => $f) {
                if ($how === 'fromPairs' && (!method_exists($q, 'fromPairs') || $c === 'CachedIterable')) continue;
                Cases::run([$len, $at, $how], static function () use ($c, $q, $len, $at, $how, $f, $pairy) {
                    $e = Uni::sample($c, $len); St::$states++; St::$transitions++; $thrown = null; $boom = null; $o = null;
                    if ($how === 'gen') { if ($at > $len) return; $boom = new Boom('gen'); $src = (static function () use ($e, $at, $pairy, $boom) { foreach ($e as $i => $x) { if ($i === $at) throw $boom; if ($pairy) yield $x[0] => $x[1]; else yield $x; } throw $boom; })(); }
                    else { $src = new FaultIt($e, $pairy && $how !== 'fromPairs', $at); if ($how === 'agg') { $in = $src; $src = new class($in) implements IteratorAggregate { public function __construct(public $i) {} public function getIterator(): Iterator { return $this->i; } }; } else $in = $src; }
                    try { $o = $how === 'fromPairs' ? $q::fromPairs($src) : new $q($src); if ($c === 'CachedIterable') count($o); } catch (Throwable $t) { $thrown = $t; }
                    if ($how === 'gen') { if ($thrown !== $boom) throw new Violation('the exception of the source did not reach the caller: ' . ($thrown ? get_class($thrown) . ' ' . $thrown->getMessage() : 'nothing thrown')); St::outcome("$how fault"); return; }
                    if ($in->calls > $at) { if (!($thrown instanceof Boom) || $thrown->getMessage() !== 'source') throw new Violation('the exception of the source did not reach the caller: ' . ($thrown ? get_class($thrown) . ' ' . $thrown->getMessage() : 'nothing thrown')); if ($in->calls > $at + 1) throw new Violation('the source was used after it threw'); St::outcome("$how fault"); }
                    elseif ($thrown) throw new Violation("$how threw " . get_class($thrown) . ' ' . $thrown->getMessage());
                    else { Uni::expectContent($o, Uni::model($c, $e), "$how content"); St::outcome("$how ok"); }
                });
            }
            return;
        }
        foreach (array_slice(Uni::ways($c), 0, $job['ways']) as $w) foreach ([false, true] as $thr) {
            $st = []; $sigs = [];
            foreach (c22_calls($c, $n) as $name => $call) Cases::run([$w, $thr, $name], static function () use ($c, $n, $w, $name, $call, $thr, &$st, &$sigs) { c22_case($c, $n, $w, $name, $call, $thr, $st, $sigs); });
        }
        St::sample(array_slice(array_keys($sigs), 0, 3));
    },
];
