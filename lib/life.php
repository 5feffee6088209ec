<?php
/* Tracked values: every live T is known, so "alive" can be compared with "reachable" after every step. */
require_once __DIR__ . '/uni.php';
final class Life {
    public static array $alive = [];   // tok => WeakReference
    public static int $seq = 0;
    public static int $dead = 0;
    public static bool $measure = false;
    public static ?Closure $onDestruct = null;
    public static function reset(): void { self::$onDestruct = null; if ($t = self::toks()) { $l = implode(' ', $t); self::$alive = []; throw new Violation("values still alive after everything was released: $l"); } self::$seq = 0; self::$dead = 0; }
    public static function get(string $tok) { $r = isset(self::$alive[$tok]) ? self::$alive[$tok]->get() : null; return $r ?? new T($tok); }
    public static function toks(): array { $t = []; foreach (self::$alive as $k => $w) if ($w->get() !== null) $t[] = $k; sort($t); return $t; }
    /* placeholders "#..." (at any depth) become tracked objects, dynamic strings for "$...", a reference counted empty array for "@" */
    public static function res($x) {
        if (is_string($x)) { if ($x !== '' && $x[0] === '#') return self::get($x); if ($x === '@') { $a = [1]; array_pop($a); return $a; } if ($x !== '' && $x[0] === '$') return str_repeat($x, 1 + (int)(strlen($x) > 0)); return $x; }
        if (is_array($x)) { $r = []; foreach ($x as $k => $y) $r[$k] = self::res($y); return $r; }
        return $x;
    }
    /* tracked objects become their token */
    public static function tok($x) {
        if ($x instanceof T) return $x->tok;
        if (is_array($x)) { $r = []; foreach ($x as $k => $y) $r[$k] = self::tok($y); return $r; }
        if (is_string($x) && $x !== '' && $x[0] === '$') return substr($x, 0, intdiv(strlen($x), 2));
        return is_object($x) ? get_class($x) : $x;
    }
    public static function collect($x, array &$set): void {
        if (is_string($x)) { if ($x !== '' && $x[0] === '#') $set[$x] = 1; }
        elseif (is_array($x)) foreach ($x as $y) self::collect($y, $set);
    }
    public static function content($o): array { return self::tok(Uni::kind(Uni::cls($o)) === 'heap' ? $o->values() : Uni::content($o)); }
    /* alive must be exactly the tracked values in the content (plus $extra) */
    public static function check(?array $content, string $what, array $extra = []): void {
        $set = []; if ($content) self::collect($content, $set); foreach ($extra as $e) $set[$e] = 1;
        $want = array_keys($set); sort($want); $got = self::toks();
        if ($want !== $got) throw new Violation("$what: alive values are [" . implode(' ', $got) . '], reachable are [' . implode(' ', $want) . ']');
    }
}
class T {
    public $tok; public $x = null;
    public function __construct($t) { $this->tok = $t; Life::$alive[$t] = WeakReference::create($this); }
    public function __wakeup() { Life::$alive[$this->tok] = WeakReference::create($this); }
    public function __destruct() { Life::$dead++; if (Life::$onDestruct) { $f = Life::$onDestruct; $f($this); } }
}
/* an iterator source that throws at the n-th protocol call */
final class FaultIt implements Iterator {
    private int $i = 0; private int $n = 0;
    public function __construct(private array $e, private bool $pairy, private int $at, public int $calls = 0) {}
    private function tick(): void { if ($this->calls++ === $this->at) throw new Boom('source'); }
    public function current(): mixed { $this->tick(); $x = $this->e[$this->i]; return Life::res($this->pairy ? $x[1] : $x); }
    public function key(): mixed { $this->tick(); $x = $this->e[$this->i]; return Life::res($this->pairy ? $x[0] : $this->i); }
    public function next(): void { $this->tick(); $this->i++; }
    public function rewind(): void { $this->tick(); $this->i = 0; }
    public function valid(): bool { $this->tick(); return $this->i < count($this->e); }
}
final class FaultAgg implements IteratorAggregate {
    public function __construct(private array $e, private bool $pairy, private int $at, private bool $bad = false) {}
    public function getIterator(): Iterator { if ($this->bad) throw new Boom('getIterator'); return new FaultIt($this->e, $this->pairy, $this->at); }
}
/* Runs a self-contained scenario (it must release everything it creates); in measuring mode also requires the heap to be back where it was. */
function life_run(callable $f, string $what): void {
    Life::$alive = []; Life::$seq = 0; Life::$dead = 0; Life::$onDestruct = null;
    $f(); Life::reset(); Life::$alive = [];
    if (!Life::$measure) return;
    $best = PHP_INT_MAX;
    for ($k = 0; $k < 4; $k++) {
        $m = memory_get_usage(); $f(); Life::$alive = []; Life::$seq = 0; Life::$dead = 0; $GLOBALS['DIAG'] = []; $best = min($best, memory_get_usage() - $m);
        if ($best <= 0) break;
    }
    if ($best > 0) throw new Violation("$what: $best bytes are not released");
}
