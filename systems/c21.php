<?php
require_once __DIR__ . '/../lib/life.php';
/* Every outer operation that runs user code (destructors, callbacks, generators, iterator methods, __serialize/jsonSerialize/__debugInfo of elements, error handlers)
   x every inner operation of that user code on the same collection: memory safe, and the collection is valid and usable afterwards. */
function c21_any(string $c): bool { return in_array($c, Uni::ANYVALUE); }
function c21_entries(string $c, int $n, bool $obj = true): array {
    if (!c21_any($c)) return Uni::sample($c, $n);
    $r = []; for ($i = 0; $i < $n; $i++) $r[] = Uni::pairy($c) ? ["#k$i", "#v$i"] : "#v$i";
    return $r;
}
function c21_fresh(string $c, string $p): Closure {
    $i = 0;
    if (!c21_any($c)) return static function () use ($c, &$i) { return Uni::sample($c, 1, 20 + $i++)[0]; };
    return static function () use (&$i, $p) { $i++; return "#$p$i"; };
}
function c21_inner(string $c, array $m): array {
    $r = in_array($c, Uni::MUTABLE) ? Uni::ops($c, $m, c21_fresh($c, 'g')) : [];
    array_push($r, ['~values'], ['~foreach'], ['~iter'], ['~clone'], ['~gc'], ['~array'], ['~serialize'], ['~throw'], ['~drain'], ['~refill'], ['~construct'], ['~json'], ['~views'], ['~dump']);
    foreach (['map', 'filter'] as $f) if (method_exists("Teds\\$c", $f)) $r[] = ["~$f"];
    return $r;
}
function c21_do($o, array $op): void {
    $c = Uni::cls($o);
    if ($op[0][0] !== '~') { $r = Uni::exec($o, Life::res($op)); return; }
    switch ($op[0]) {
        case '~values': Life::content($o); break;
        case '~foreach': foreach ($o as $k => $v) { if ($o instanceof Iterator) break; } break;
        case '~iter': if ($o instanceof IteratorAggregate) { $it = $o->getIterator(); if ($it->valid()) { $it->current(); $it->next(); } $GLOBALS['c21held'][] = $it; } break;
        case '~clone': if ($c !== 'CachedIterable') $GLOBALS['c21held'][] = clone $o; break;
        case '~gc': gc_collect_cycles(); break;
        case '~array': $x = (array)$o; break;
        case '~json': json_encode($o, JSON_PARTIAL_OUTPUT_ON_ERROR); break;
        case '~dump': ob_start(); try { var_dump($o); print_r($o); } finally { ob_end_clean(); } break;
        case '~serialize': $x = $o->__serialize(); break;
        case '~throw': throw new Boom('inner');
        case '~drain': if (method_exists($o, 'pop')) for ($i = 0; $i < 40 && count($o); $i++) $o->pop(); elseif (method_exists($o, 'extract')) for ($i = 0; $i < 40 && count($o); $i++) $o->extract(); break;
        case '~refill': if (in_array($c, Uni::MUTABLE)) { $o->clear(); foreach (c21_entries($c, 9) as $i => $e) Uni::insertOne($c, $o, Life::res(c21_any($c) ? (is_array($e) ? ["#rk$i", "#rv$i"] : "#r$i") : $e)); } break;
        case '~construct': outcome(static fn() => $o->__construct(Uni::pairy($c) ? ['x' => 1] : [Uni::sample($c, 1)[0]])); outcome(static fn() => $o->__unserialize([])); break;
        case '~views': c21_valid($o); break;
        case '~map': $o->map(static fn($x) => $x); break;
        case '~filter': $o->filter(static fn($x) => true); break;
    }
}
/* the collection is a valid collection of its class */
function c21_valid($o): array {
    $c = Uni::cls($o); $m = Uni::content($o); $n = count($m);
    if (Uni::kind($c) === 'set' || Uni::kind($c) === 'map') {
        $ks = Uni::pairy($c) ? array_column($m, 0) : $m;
        for ($i = 0; $i < $n; $i++) { if (Uni::sorted($c) && $i && mcmp($ks[$i - 1], $ks[$i]) >= 0) throw new Violation('not strictly sorted: ' . show(Life::tok($ks))); for ($j = 0; $j < $i; $j++) if (Uni::eq($c, $ks[$i], $ks[$j])) throw new Violation('duplicate key: ' . show(Life::tok($ks))); }
    }
    foreach ($m as $x) if (!Uni::pairy($c) && !Uni::accepts($c, $x)) throw new Violation('element of a wrong type: ' . show($x));
    Uni::views($o, $m);
    return $m;
}
function c21_after($o, string $what): void {
    $c = Uni::cls($o);
    if ($c === 'CachedIterable' && outcome(static fn() => $o->count())[0] === 'x') { // the source failed: what was fetched stays readable, nothing else is promised
        $it = $o->getIterator(); for ($i = 0; $i < 60 && $it->valid(); $i++) { expect($it->current(), $o->valueAt($i), 'fetched value'); expect($it->key(), $o->keyAt($i), 'fetched key'); $it->next(); } return;
    }
    $m = c21_valid($o); unset($m);
    if (Life::$alive && !$GLOBALS['c21leaky']) { $held = []; foreach ($GLOBALS['c21held'] as $h) if (!($h instanceof Iterator && !method_exists($h, 'extract'))) Life::collect(Life::content($h), $held); Life::check(Life::content($o), $what, array_keys($held + $GLOBALS['c21keep'])); }
    if (in_array($c, Uni::MUTABLE)) foreach (Uni::kind($c) === 'seq' ? [['push', 'F'], ['pushFront', 'F'], ['unset', 0], ['insert', 1, 'F'], ['pop']] : (Uni::kind($c) === 'pairs' ? [['push', 'F', 'F'], ['setSize', 2], ['pop']] : (Uni::kind($c) === 'map' ? [['put', 'F', 'F'], ['put', 'F', 'F'], ['clear'], ['put', 'F', 'F']] : [['add', 'F'], ['add', 'F'], ['clear'], ['add', 'F']])) as $i => $op) {
        $k = 0; foreach ($op as &$x) if ($x === 'F') { $x = c21_any($c) ? "after$i" . ++$k : Uni::sample($c, 1, 31 + $i * 2 + $k++)[0]; } unset($x);
        $m = Uni::content($o); [$exp, $m2] = Uni::apply($c, $m, $op); Uni::cmp($exp, Uni::exec($o, $op), "$what, then {$op[0]}"); Uni::expectContent($o, $m2, "$what, then {$op[0]}"); unset($m, $m2, $exp);
    }
    foreach ($GLOBALS['c21held'] as $h) if ($h instanceof Iterator && !method_exists($h, 'extract')) { for ($i = 0; $i < 60 && $h->valid(); $i++) { $h->current(); $h->key(); $h->next(); } } else c21_valid($h);
}
/* arms user code: fires the inner operation at the k-th opportunity (or at every one, at most 4 times) */
function c21_arm($o, array $inner, int $k): Closure {
    $n = 0; $busy = false;
    return static function () use ($o, $inner, $k, &$n, &$busy) {
        if ($busy) return; $i = $n++;
        if ($k >= 0 ? $i !== $k : $i >= 4) return;
        $busy = true; $GLOBALS['c21fired']++; try { c21_do($o, $inner); } finally { $busy = false; }
    };
}
class Evil extends T {
    public static ?Closure $hook = null;
    public static function fire() { if (self::$hook) { $h = self::$hook; $h(); } }
    public function __serialize(): array { self::fire(); return ['t' => $this->tok]; }
    public function __unserialize(array $d): void { $this->tok = $d['t']; self::fire(); }
    public function __debugInfo() { try { self::fire(); } catch (Throwable) {} return ['t' => $this->tok]; }
}
final class EvilJson extends Evil implements JsonSerializable { public function jsonSerialize(): mixed { self::fire(); return $this->tok; } }
/* a source that re-enters at every protocol call */
final class EvilIt implements Iterator {
    private int $i = 0;
    public function __construct(private array $e, private bool $pairy) {}
    public function current(): mixed { Evil::fire(); $x = $this->e[$this->i]; return Life::res($this->pairy ? $x[1] : $x); }
    public function key(): mixed { Evil::fire(); $x = $this->e[$this->i]; return Life::res($this->pairy ? $x[0] : $this->i); }
    public function next(): void { Evil::fire(); $this->i++; }
    public function rewind(): void { Evil::fire(); $this->i = 0; }
    public function valid(): bool { Evil::fire(); return $this->i < count($this->e); }
}
function c21_run(string $c, int $n, string $way, string $mode, $outer, int $ii, int $k): ?int {
    $GLOBALS['c21held'] = []; $GLOBALS['c21keep'] = []; $GLOBALS['c21leaky'] = false;
    $e = c21_entries($c, $n); $o = Uni::make($c, Life::res($e), $way);
    $m = Life::content($o); $inner = c21_inner($c, $m); if ($ii < 0) { $r = count($inner); unset($o); return $r; }
    if ($ii >= count($inner)) { unset($o); return null; }
    $in = $inner[$ii]; if ($mode === 'elem' && in_array($in[0], ['~views', '~json', '~dump'])) { unset($o); return null; } $what = json_encode($outer) . ' with ' . json_encode($in); $arm = c21_arm($o, $in, $k);
    if ($k >= 0 && in_array($mode, ['dtor', 'cb', 'handler']) && $o instanceof IteratorAggregate) { $it = $o->getIterator(); if ($it->valid()) $it->next(); if ($k && $it->valid()) $it->next(); $GLOBALS['c21held'][] = $it; $it2 = $o->getIterator(); $GLOBALS['c21held'][] = $it2; unset($it, $it2); }
    switch ($mode) {
        case 'dtor': // destructors of released elements
            $op = Uni::ops($c, $m, c21_fresh($c, 'f'))[$outer] ?? null; if ($op === null) { unset($o, $arm); return null; } $what = json_encode($op) . ' with ' . json_encode($in);
            Life::$onDestruct = $arm; $r = outcome(static function () use ($o, $op) { $r = Uni::exec($o, Life::res($op)); unset($r); }); unset($r); Life::$onDestruct = null; St::outcome("$c {$op[0]} {$in[0]}"); break;
        case 'cb': // callbacks
            $f = $outer; $r = outcome(static fn() => $o->$f(static function ($v) use ($arm) { $arm(); return [$v, 'x']; })); $d = $r[0] === 'r' ? $r[1] : null; unset($r); if ($d) c21_valid($d); unset($d); break;
        case 'cbrel': // a callback whose result or argument is the last reference
            $f = $outer; Life::$onDestruct = $arm; $r = outcome(static fn() => $o->$f(static function ($v) { $t = new T('#cb'); return false; })); Life::$onDestruct = null; unset($r); break;
        case 'handler': // user error handler running in the middle of an operation
            $GLOBALS['DIAG'] = []; $calls = 0; set_error_handler(static function ($no, $msg) use ($arm, &$calls) { $calls++; $arm(); return true; });
            try { $r = outcome(c21_handlerOps($c)[$outer]($o)); } finally { restore_error_handler(); } $r = null; if ($calls) St::outcome("$c handler $outer"); break;
        case 'elem': // user code of the elements run by serialize/json/dump
            unset($arm); unset($o); $es = []; foreach ($e as $i => $x) $es[] = Uni::pairy($c) ? [$i % 2 ? new EvilJson("#ek$i") : "k$i", new EvilJson("#ev$i")] : new EvilJson("#ev$i");
            $o = Uni::make($c, $es, $way); unset($es); Evil::$hook = c21_arm($o, $in, $k);
            outcome(static function () use ($outer, $o) { switch ($outer) { case 'serialize': $s = serialize($o); break; case 'serarr': $s = serialize([$o, $o, 1]); break; case 'json': json_encode($o); break; case 'dump': ob_start(); try { var_dump($o); } finally { ob_end_clean(); } break; case 'print': print_r($o, true); break; case 'export': var_export($o, true); break;
                case 'unser': $s = serialize([1, $o]); $x = unserialize($s); break; } });
            Evil::$hook = null; $arm = null; break;
        case 'source': // the source re-enters the collection being consumed / already built
            unset($arm); $q = "Teds\\$c"; $src = new EvilIt($e, Uni::pairy($c)); unset($o);
            if ($c === 'CachedIterable') { $o = new $q($src); Evil::$hook = c21_arm($o, $in, $k); outcome(static function () use ($o, $outer) { switch ($outer) { case 'all': count($o); break; case 'iter': $it = $o->getIterator(); while ($it->valid()) { $it->current(); $it->next(); } break; case 'at': $o->valueAt(1); break; case 'contains': $o->contains('nope'); break; case 'foreach': foreach ($o as $v) ; break; case 'serialize': serialize($o); break; } }); }
            else { $GLOBALS['c21leaky'] = true; $o = Uni::make($c, [], 'gen'); Evil::$hook = c21_arm($o, $in, $k); outcome(static fn() => $o->__construct($src)); }
            Evil::$hook = null; $arm = null; break;
        case 'helper': // the callback of a library function that is consuming the collection
            $r = outcome(c21_helpers($o)[$outer](static function (...$a) use ($arm) { $arm(); return false; })); unset($r); break;
        case 'cbdtor': // the callback releases elements the operation is looking at; their destructors then run the inner operation (or throw)
            [$f, $first, $ret] = explode('+', $outer); $calls = 0; $cb = static function (...$a) use ($o, $first, $ret, $k, &$calls) { if ($calls++ === $k) { unset($a); c21_do($o, $first === 'unset' ? ['unset', 0] : [$first]); } return $ret === 'keep'; };
            Life::$onDestruct = $arm; $r = outcome(str_starts_with($f, 'm:') ? static function () use ($o, $f, $cb) { $g = substr($f, 2); $x = $o->$g($cb); c21_valid($x); } : static function () use ($o, $f, $cb) { $x = c21_helpers($o)[$f]($cb)(); unset($x); }); unset($r, $cb); Life::$onDestruct = null; St::outcome("$c $outer"); break;
        case 'fiber': // user code suspended inside an operation, the collection changed meanwhile, then resumed, made to throw, or abandoned
            unset($arm); [$f, $end] = explode('+', $outer); $calls = 0; $cb = static function (...$a) use (&$calls, $k) { if ($calls++ === $k) Fiber::suspend(); return $calls > 1 ? ($a[0] ?? null) : false; };
            if ($f === 'ctor' || $c === 'CachedIterable') {
                $q = "Teds\\$c"; $src = new EvilIt($e, Uni::pairy($c)); Evil::$hook = $cb; unset($o); $o = null; // what is under construction is not reachable for others: only the source and earlier objects are
                if ($c === 'CachedIterable') { Evil::$hook = null; $o = new $q($src); Evil::$hook = $cb; $body = static function () use ($o, $f) { match ($f) { 'ctor', 'all' => count($o), 'iter' => iterator_to_array($o, false), 'at' => $o->valueAt(1), 'contains' => $o->contains('nope'), 'serialize' => serialize($o), default => c21_helpers($o)[$f](static fn() => false)() }; }; }
                else $body = static function () use ($q, $src) { $x = new $q($src); return count($x); };
            } else $body = str_starts_with($f, 'm:') ? static function () use ($o, $f, $cb) { $g = substr($f, 2); $x = $o->$g($cb); } : c21_helpers($o)[$f]($cb);
            $fb = new Fiber($body); unset($body); $r = outcome(static fn() => $fb->start());
            if ($fb->isSuspended()) { $GLOBALS['c21fired']++; if ($o !== null) { $r = outcome(static fn() => c21_do($o, $in)); } St::outcome("fiber $f $end"); match ($end) { 'resume' => $r = outcome(static fn() => $fb->resume()), 'throw' => $r = outcome(static fn() => $fb->throw(new Boom('fiber'))), 'drop' => null }; }
            Evil::$hook = null; unset($fb, $r, $cb, $src); if ($o === null) $o = Uni::make($c, Life::res($e), $way); break;
        case 'toarray': // toArray() of fractional keys raises a diagnostic per key
            unset($arm, $o); $es = []; foreach ($e as $i => $x) $es[] = Uni::pairy($c) ? [$i + 0.5, Life::get("#tv$i")] : $i + 0.5;
            $o = Uni::make($c, $es, $way); unset($es); $arm = c21_arm($o, $in, $k); set_error_handler(static function ($no, $msg) use ($arm) { $arm(); return true; });
            try { $r = outcome(static fn() => $o->toArray()); } finally { restore_error_handler(); } unset($r); break;
    }
    unset($arm, $in, $inner);
    c21_after($o, $what); St::$transitions++;
    $GLOBALS['c21held'] = []; unset($o); if ($GLOBALS['c21leaky']) Life::$alive = []; return null;
}
function c21_helpers($o): array {
    return ['any' => static fn($cb) => static fn() => Teds\any($o, $cb), 'all' => static fn($cb) => static fn() => Teds\all($o, static fn(...$a) => !$cb(...$a)), 'none' => static fn($cb) => static fn() => Teds\none($o, $cb), 'find' => static fn($cb) => static fn() => Teds\find($o, $cb), 'fold' => static fn($cb) => static fn() => Teds\fold($o, static function ($i, $v) use ($cb) { $cb($v); return [$i, $v]; }, Life::get('#fold')),
        'vector' => static fn($cb) => static fn() => new Teds\Vector((static function () use ($o, $cb) { foreach ($o as $v) { $cb($v); yield $v; } })()), 'unique' => static fn($cb) => static fn() => Teds\unique_values((static function () use ($o, $cb) { foreach ($o as $v) { $cb($v); yield $v; } })())];
}
function c21_handlerOps(string $c): array {
    $r = [];
    foreach ([0.5, 1.5, 1.0, '1', true, 'fopen'] as $i => $off) {
        $k = static fn() => $off === 'fopen' ? STDIN : $off; $v = static fn() => in_array($c, Uni::ANYVALUE) ? Life::get('#hv') : Uni::sample($c, 1, 41)[0];
        $r["get$i"] = static fn($o) => static fn() => $o[$k()]; $r["isset$i"] = static fn($o) => static fn() => isset($o[$k()]); $r["empty$i"] = static fn($o) => static fn() => empty($o[$k()]); $r["coal$i"] = static fn($o) => static fn() => $o[$k()] ?? 1;
        $r["set$i"] = static fn($o) => static function () use ($o, $k, $v) { $o[$k()] = $v(); }; $r["unset$i"] = static fn($o) => static function () use ($o, $k) { unset($o[$k()]); };
        $r["ind$i"] = static fn($o) => static function () use ($o, $k) { $o[$k()][] = 1; }; $r["ref$i"] = static fn($o) => static function () use ($o, $k) { $x = &$o[$k()]; $x = 1; };
        foreach (['offsetGet', 'offsetExists', 'offsetUnset', 'get', 'containsKey', 'keyAt', 'valueAt', 'contains', 'indexOf', 'setSize', 'getInt8'] as $f) if (method_exists("Teds\\$c", $f)) $r["$f$i"] = static fn($o) => static fn() => $o->$f($k());
        foreach (['offsetSet', 'set', 'insert', 'setKeyAt', 'setValueAt', 'setInt8', 'setInt64'] as $f) if (method_exists("Teds\\$c", $f)) $r["$f$i"] = static fn($o) => static fn() => $o->$f($k(), str_contains($f, 'Int') ? 5 : $v());
    }
    foreach (['push', 'add', 'pushFront', 'insert'] as $f) if (method_exists("Teds\\$c", $f)) foreach ([1.5, '2', 300.5, STDIN] as $i => $a) $r["$f-v$i"] = static fn($o) => static fn() => $f === 'insert' ? $o->insert(0, $a) : $o->$f($a);
    return $r;
}
return [
    'jobs' => function ($tier) {
        $th = $tier === 'thorough'; $jobs = [];
        foreach (Uni::KIND as $c => $kind) {
            $any = in_array($c, Uni::ANYVALUE); $mut = in_array($c, Uni::MUTABLE);
            if ($any && $mut) {
                $jobs[] = ['name' => "dtor-$c", 'cls' => $c, 'm' => 'dtor', 'sizes' => $th ? [1, 2, 3, 4, 5, 8, 9] : [1, 2, 3, 8], 'ways' => 1, 'ks' => $th ? [0, 1, 2, -1] : [0, 1, -1], 'weight' => 20, 'bound' => 'every operation that runs user code x every operation run by the 1st/2nd/every destructor'];
                $jobs[] = ['name' => "dtorw-$c", 'cls' => $c, 'm' => 'dtor', 'sizes' => $th ? [2, 3, 5, 8] : [3], 'ways' => 99, 'ks' => $th ? [0, -1] : [0], 'weight' => 20, 'bound' => 'every construction route x every operation x every operation run by a destructor'];
            }
            if (method_exists("Teds\\$c", 'map')) foreach (['cb', 'cbrel'] as $md) $jobs[] = ['name' => "$md-$c", 'cls' => $c, 'm' => $md, 'sizes' => [1, 2, 3, 5, 8], 'ways' => $th ? 99 : 3, 'ks' => [0, 1, 2, -1], 'weight' => 6, 'bound' => 'map/filter x every operation run by the k-th callback'];
            elseif (method_exists("Teds\\$c", 'filter')) throw new HarnessError('filter without map');
            if ($mut && $kind !== 'heap') $jobs[] = ['name' => "handler-$c", 'cls' => $c, 'm' => 'handler', 'sizes' => $th ? [1, 2, 3, 5] : [1, 2], 'ways' => $th ? 3 : 1, 'ks' => [0, -1], 'weight' => 10, 'bound' => 'every offset operation with convertible offsets x every operation run by the error handler'];
            if ($any) $jobs[] = ['name' => "elem-$c", 'cls' => $c, 'm' => 'elem', 'sizes' => $th ? [1, 2, 3, 5, 9] : [2, 3], 'ways' => $th ? 99 : 2, 'ks' => [0, 1, -1], 'weight' => 6, 'bound' => 'serialize/json/dump/export x every operation run by the k-th element'];
            if ($any && in_array($kind, ['map', 'pairs', 'set', 'heap'])) $jobs[] = ['name' => "toarray-$c", 'cls' => $c, 'm' => 'toarray', 'sizes' => $th ? [1, 2, 3, 5, 8, 9] : [1, 3, 8], 'ways' => $th ? 99 : 1, 'ks' => [0, 1, -1], 'weight' => 6, 'bound' => 'toArray() with diagnostics x every operation run by the error handler'];
            if ($kind !== 'heap') {
                $jobs[] = ['name' => "helper-$c", 'cls' => $c, 'm' => 'helper', 'sizes' => $th ? [1, 2, 3, 5, 8] : [1, 3, 8], 'ways' => $th ? 99 : 2, 'ks' => [0, 1, 2, -1], 'weight' => 6, 'bound' => 'every library function consuming the collection x every operation run by the k-th callback'];
                if ($any && $mut) $jobs[] = ['name' => "cbdtor-$c", 'cls' => $c, 'm' => 'cbdtor', 'sizes' => $th ? [1, 2, 3, 5, 8] : [3], 'ways' => $th ? 99 : 1, 'ks' => $th ? [0, 1, 2, 3] : [0, 1], 'weight' => 6, 'bound' => 'every callback-taking operation x every removal made by its k-th callback x every operation run by the destructors of what was removed'];
                $jobs[] = ['name' => "fiber-$c", 'cls' => $c, 'm' => 'fiber', 'sizes' => $th ? [1, 2, 3, 5, 8] : [1, 3], 'ways' => $th ? 99 : 1, 'ks' => $th ? range(0, 16) : [0, 1, 2, 4, 7], 'weight' => 6, 'bound' => 'user code suspended at its k-th call inside every operation that runs user code x every operation meanwhile x resumed, made to throw, or abandoned'];
            }
            $jobs[] = ['name' => "source-$c", 'cls' => $c, 'm' => 'source', 'sizes' => [1, 2, 3], 'ways' => 1, 'ks' => $th ? range(-1, 16) : [-1, 0, 1, 2, 3, 4, 5, 9], 'weight' => 6, 'bound' => 'every operation run at every protocol call of the source'];
        }
        return $jobs;
    },
    'run' => function ($job) {
        $c = $job['cls'];
        $outers = match ($job['m']) { 'dtor' => null, 'toarray' => ['toArray'], 'cbdtor' => (static function () use ($c) { $r = []; foreach (['any', 'all', 'find', 'fold', ...(method_exists("Teds\\$c", 'map') ? ['m:map', 'm:filter'] : [])] as $f) foreach (['clear', '~drain', '~refill', 'unset'] as $g) if ($g !== 'unset' || Uni::kind($c) === 'seq') foreach (['keep', 'drop'] as $e) $r[] = "$f+$g+$e"; return $r; })(), 'helper' => ['any', 'all', 'none', 'find', 'fold', 'vector', 'unique'], 'fiber' => (static function () use ($c) { $r = []; foreach (['any', 'find', 'fold', 'vector', 'unique', 'ctor', ...($c === 'CachedIterable' ? ['all', 'iter', 'at', 'contains', 'serialize'] : []), ...(method_exists("Teds\\$c", 'map') ? ['m:map', 'm:filter'] : [])] as $f) foreach (['resume', 'throw', 'drop'] as $e) $r[] = "$f+$e"; return $r; })(), 'cb', 'cbrel' => ['map', 'filter'], 'handler' => array_keys(c21_handlerOps($c)), 'elem' => ['serialize', 'serarr', 'json', 'dump', 'print', 'export', 'unser'], 'source' => $c === 'CachedIterable' ? ['all', 'iter', 'at', 'contains', 'foreach', 'serialize'] : ['ctor'] };
        foreach ($job['sizes'] as $n) foreach (array_slice(Uni::ways($c), 0, $job['ways']) as $w) {
            $ni = c21_run($c, $n, $w, 'cb', null, -1, 0); Life::$alive = [];
            $os = $outers; if ($os === null) { $m = c21_entries($c, $n); $os = []; foreach (Uni::ops($c, $m, c21_fresh($c, 'f')) as $i => $op) $os[] = $i; }
            foreach ($os as $outer) foreach ($job['ks'] as $k) for ($ii = 0, $GLOBALS['c21fired'] = 0; $ii < $ni && ($ii < 2 || $GLOBALS['c21fired'] || Cases::$only !== null); $ii++) Cases::run([$n, $w, $outer, $ii, $k], static function () use ($c, $n, $w, $job, $outer, $ii, $k) {
                St::$states++; St::$traces++; life_run(static fn() => c21_run($c, $n, $w, $job['m'], $outer, $ii, $k), 'x'); if (St::$states % 997 === 5) St::sample([$c, $n, $w, $outer, $ii, $k]); });
        }
    },
];
