<?php
/* Core of the explorer: outcomes, value tokens, explicit-state search over the real extension. */
error_reporting(E_ALL);
ini_set('display_errors', 'stderr');
ini_set('memory_limit', '-1');
ini_set('serialize_precision', '-1');

final class Violation extends \Error {
    public $detail;
    public function __construct(string $msg, $detail = null) { parent::__construct($msg); $this->detail = $detail; }
}
final class Boom extends \Exception {}        // the exception user code throws in fault injection
final class HarnessError extends \Error {}

$GLOBALS['DIAG'] = [];
set_error_handler(static function ($no, $msg) {
    $GLOBALS['DIAG'][] = $msg;
    return true;
});

/* ---- statistics ---- */
final class St {
    public static int $states = 0;       // distinct canonical states (explicit-state jobs)
    public static int $transitions = 0;  // operations executed on the implementation and compared with the model
    public static int $traces = 0;       // histories started on a fresh implementation object
    public static int $evals = 0;        // cases (input enumerations)
    public static int $distinct = 0;     // distinct non-trivial cases
    public static array $outcomes = [];  // distinct outcome kinds seen
    public static array $samples = [];
    public static int $maxdepth = 0;
    public static bool $capped = false;
    public static array $notes = [];
    public static function outcome(string $k): void { self::$outcomes[$k] = (self::$outcomes[$k] ?? 0) + 1; }
    public static function note(string $n): void { if (!in_array($n, self::$notes, true)) self::$notes[] = $n; }
    public static function sample($s): void { if (count(self::$samples) < 3) self::$samples[] = is_string($s) ? $s : json_encode($s); }
    public static function dump(): array {
        ksort(self::$outcomes);
        return ['states' => self::$states, 'transitions' => self::$transitions, 'traces' => self::$traces, 'evals' => self::$evals,
            'distinct' => self::$distinct, 'outcomes' => self::$outcomes, 'samples' => self::$samples, 'maxdepth' => self::$maxdepth,
            'capped' => self::$capped, 'notes' => self::$notes];
    }
}

/* ---- tracing: what is being executed right now (only on the diagnosing re-run of a crashed job) ---- */
final class Trace {
    public static $fh = null;
    public static int $n = 0;
    public static bool $replay = false;
    public static function open(string $path): void { self::$fh = fopen($path, 'wb'); }
    public static function at($x): void {
        if (time() !== self::$n && (self::$n = time())) set_time_limit((int)(getenv('VERIF_ALARM') ?: 30));
        if (self::$fh) {
            $s = json_encode($x, JSON_PARTIAL_OUTPUT_ON_ERROR | JSON_INVALID_UTF8_SUBSTITUTE);
            ftruncate(self::$fh, 0); rewind(self::$fh); fwrite(self::$fh, $s); fflush(self::$fh);
        }
    }
}

/* ---- canonical representation of values ---- */
function repr($v, int $d = 0): string {
    if ($v === null) return 'n';
    if ($v === true) return 't';
    if ($v === false) return 'f';
    if (is_int($v)) return 'i' . $v;
    if (is_float($v)) return is_nan($v) ? 'dNAN' : 'd' . bin2hex(pack('E', $v));
    if (is_string($v)) return 's' . strlen($v) . ':' . $v;
    if (is_array($v)) {
        if ($d > 12) return '[deep]';
        $s = '[';
        foreach ($v as $k => $x) $s .= (is_int($k) ? $k : '"' . $k . '"') . '=>' . repr($x, $d + 1) . ',';
        return $s . ']';
    }
    if (is_object($v)) return 'o' . get_class($v) . (isset($v->tok) ? '<' . $v->tok . '>' : ($v instanceof \UnitEnum ? $v->name : '#' . spl_object_id($v)));
    if (is_resource($v)) return 'r' . get_resource_id($v);
    return '?' . gettype($v);
}
/* exact sameness: type, value, array key order and kind, object identity, sign of zero; NAN is itself */
function same($a, $b): bool {
    if (is_object($a) || is_object($b)) return $a === $b;
    if ($a === $b && !is_float($a) && !is_array($a)) return true;
    if (is_float($a) || is_array($a)) return repr($a) === repr($b);
    return false;
}
function show($v): string { $s = repr($v); return strlen($s) > 400 ? substr($s, 0, 400) . '...' : addcslashes($s, "\0..\37\177..\377"); }

/* Runs f and returns ['r', value] or ['x', exception class]; diagnostics emitted are appended as a third element. */
function outcome(callable $f): array {
    $GLOBALS['DIAG'] = [];
    try { $o = ['r', $f()]; }
    catch (Violation $e) { throw $e; }
    catch (HarnessError $e) { throw $e; }
    catch (\Throwable $e) { $o = ['x', get_class($e)]; }
    if ($GLOBALS['DIAG']) { $o[] = count($GLOBALS['DIAG']); $GLOBALS['DIAG'] = []; }
    return $o;
}
/* a list must go on as one: the next element appended gets the next index */
function expect_list(array $l, string $what): void { $n = count($l); if (!array_is_list($l)) throw new Violation("$what is not a list"); $l[] = null; if (array_key_last($l) !== $n) throw new Violation("appending to $what gives key " . array_key_last($l) . ", expected $n"); }
function expect_outcome(array $exp, array $got, string $what): void {
    if ($exp[0] === $got[0] && count($exp) === count($got) && ($exp[0] === 'x' ? $exp[1] === $got[1] : same($exp[1], $got[1])) && ($exp[2] ?? 0) === ($got[2] ?? 0)) return;
    throw new Violation("$what: expected " . show($exp) . ' got ' . show($got));
}
function expect($exp, $got, string $what): void {
    if (same($exp, $got)) return;
    throw new Violation("$what: expected " . show($exp) . ' got ' . show($got));
}
function R($v = null): array { return ['r', $v]; }
function X(string $c): array { return ['x', $c]; }

/* ---- value tokens: JSON-friendly names of values, objects memoised per context ---- */
class Obj { public $tok; public function __construct($t = null) { $this->tok = $t; } }
class Ctx {
    public $impl; public $model; public array $memo = []; public int $fresh = 0; public array $x = [];
    public function v($t) {
        if (is_array($t)) { $r = []; foreach ($t as $k => $x) $r[$k] = $this->v($x); return $r; }
        switch ($t[0]) {
            case 'i': return (int)substr($t, 1);
            case 's': return substr($t, 1);
            case 'b': return hex2bin(substr($t, 1));
            case 'd': return (float)substr($t, 1);
            case 'N': return null;
            case 'T': return true;
            case 'F': return false;
            case 'q': return NAN;
            case 'Q': return -NAN;
            case 'I': return INF;
            case 'J': return -INF;
            case 'z': return -0.0;
            case 'M': return PHP_INT_MAX;
            case 'm': return PHP_INT_MIN;
            case 'o': return $this->memo[$t] ??= new Obj($t);
            case 'r': return STDIN;
            case 'R': return STDERR;
        }
        throw new HarnessError("bad token $t");
    }
    public function vs(array $toks): array { $r = []; foreach ($toks as $t) $r[] = $this->v($t); return $r; }
}

abstract class Sys {
    public string $name = '';
    abstract public function init(): array;                 // list of initial ops
    abstract public function start(array $initop): Ctx;     // build implementation and model
    abstract public function ops(Ctx $c): iterable;         // operations to try in this state
    abstract public function step(Ctx $c, array $op): void; // execute on both, compare
    abstract public function probe(Ctx $c, bool $full): void;
    abstract public function key(Ctx $c): string;
    public function finish(Ctx $c): void {}                 // end-of-history obligations
    public function tail(Ctx $c): void {}                   // distinguishing suffix run at the end of every history: exposes hidden state that the deduplication key merges
}

/* Leak mode (C20): every history and case is executed again, and the allocator's live bytes must return to where they were. */
final class Leak {
    public static bool $on = false;
    public static function check(callable $f, string $what): void {
        $best = PHP_INT_MAX;
        for ($k = 0; $k < 6; $k++) {
            if ($k === 3) gc_collect_cycles();
            $m = memory_get_usage(); $f(); $GLOBALS['DIAG'] = []; if ($k >= 3) gc_collect_cycles(); $best = min($best, memory_get_usage() - $m);
            if ($best <= 0) return;
        }
        throw new Violation("$what: $best bytes are not released");
    }
}

final class Explorer {
    public static ?array $current = null;
    private static function leak(Sys $s, array $path): void {
        Leak::check(static function () use ($s, $path) { $c = $s->start($path[0]); for ($i = 1, $n = count($path); $i < $n; $i++) $s->step($c, $path[$i]); $s->finish($c); }, 'history executed again and dropped');
    }
    private static function begin(Sys $s, array $path): Ctx {
        St::$traces++;
        self::$current = $path;
        Trace::at(['path' => $path]);
        $c = $s->start($path[0]);
        for ($i = 1, $n = count($path); $i < $n; $i++) $s->step($c, $path[$i]);
        return $c;
    }
    /* Breadth-first search, deduplicating on $s->key(). */
    public static function bfs(Sys $s, int $maxdepth, int $maxstates = PHP_INT_MAX): void {
        $seen = []; $queue = new \SplQueue;
        foreach ($s->init() as $op) {
            $c = self::begin($s, [$op]);
            $s->probe($c, true);
            $k = $s->key($c);
            $s->finish($c);
            if (!isset($seen[$k])) { $seen[$k] = 1; St::$states++; $queue->enqueue([[$op], $k]); }
        }
        while (!$queue->isEmpty()) {
            [$path, $key] = $queue->dequeue();
            $depth = count($path) - 1;
            if ($depth > St::$maxdepth) St::$maxdepth = $depth;
            if ($depth >= $maxdepth) continue;
            $c = self::begin($s, $path);
            if ($s->key($c) !== $key) throw new Violation('replaying a history gave a different state: ' . show($s->key($c)) . ' vs ' . show($key));
            $ops = [];
            foreach ($s->ops($c) as $op) $ops[] = $op;
            unset($c);
            foreach ($ops as $op) {
                $full = [...$path, $op];
                $c = self::begin($s, $full);
                St::$transitions++;
                if (Leak::$on) { $k = $s->key($c); unset($c); self::leak($s, $full); $new = !isset($seen[$k]); if ($new) { $seen[$k] = 1; St::$states++; $queue->enqueue([$full, $k]); } continue; }
                $k = $s->key($c);
                $new = !isset($seen[$k]);
                $s->probe($c, $new);
                $s->tail($c);
                $s->finish($c);
                if ($new) {
                    if (St::$states >= $maxstates) { St::$capped = true; continue; }
                    $seen[$k] = 1; St::$states++;
                    $queue->enqueue([$full, $k]);
                    if (St::$states % 97 === 5) St::sample($full);
                }
                unset($c);
            }
        }
        if (!St::$samples && isset($full)) St::sample($full);
    }
    /* Every operation sequence up to the depth, without deduplication. Shard i of n splits on the first two operations. */
    public static function dfs(Sys $s, int $depth, int $shard = 0, int $nshards = 1): void {
        $idx = 0;
        foreach ($s->init() as $op) self::dfs1($s, [$op], $depth, $shard, $nshards, $idx);
        St::$maxdepth = max(St::$maxdepth, $depth);
    }
    private static function dfs1(Sys $s, array $path, int $left, int $shard, int $nshards, int &$idx): void {
        $lvl = count($path) - 1;
        if ($lvl === 2 && $nshards > 1 && ($idx++ % $nshards) !== $shard) return;
        $c = self::begin($s, $path);
        St::$transitions++;
        if (Leak::$on) { $ops = []; if ($left > 0) foreach ($s->ops($c) as $op) $ops[] = $op; unset($c); self::leak($s, $path); foreach ($ops as $op) self::dfs1($s, [...$path, $op], $left - 1, $shard, $nshards, $idx); return; }
        $s->probe($c, $left > 0 || $lvl <= 1);
        if ($left === 0) { $s->tail($c); $s->finish($c); if (St::$transitions % 9973 === 77) St::sample($path); return; }
        $ops = [];
        foreach ($s->ops($c) as $op) $ops[] = $op;
        $s->finish($c);
        unset($c);
        foreach ($ops as $op) self::dfs1($s, [...$path, $op], $left - 1, $shard, $nshards, $idx);
    }
    public static function replay(Sys $s, array $path): void {
        if (Leak::$on) { self::leak($s, $path); return; }
        $c = self::begin($s, $path);
        $s->probe($c, true);
        $s->key($c);
        $s->tail($c);
        $s->finish($c);
    }
}

/* Case enumeration: each case is announced so that a crash can be attributed and a single case replayed. */
final class Cases {
    public static ?string $only = null;
    public static $current = null;
    public static function run($id, callable $f): void {
        if (self::$only !== null && self::$only !== json_encode($id)) return;
        self::$current = $id;
        Trace::at(['case' => $id]);
        St::$evals++;
        $f();
        if (Leak::$on) Leak::check($f, 'case executed again');
    }
}
final class UniIt implements Iterator { // an iterator that stands at its last element (at its end when there is only one) until it is rewound
    private int $i;
    public function __construct(private array $e, private bool $pairy) { $this->i = count($e) > 1 ? count($e) - 1 : count($e); }
    public function current(): mixed { return $this->pairy ? $this->e[$this->i][1] : $this->e[$this->i]; }
    public function key(): mixed { return $this->pairy ? $this->e[$this->i][0] : 'k'; }
    public function next(): void { $this->i++; }
    public function rewind(): void { $this->i = 0; }
    public function valid(): bool { return $this->i < count($this->e); }
}
