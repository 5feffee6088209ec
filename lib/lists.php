<?php
require_once __DIR__ . "/model.php";
/* Model and explorer of the list-like classes: Vector, Deque, IntVector, LowMemoryVector, BitVector. */

const INT_BOUNDS = ['i0', 'i1', 'i-1', 'i127', 'i128', 'i-128', 'i-129', 'i255', 'i256', 'i32767', 'i32768', 'i-32768', 'i-32769', 'i65535', 'i65536',
    'i2147483647', 'i2147483648', 'i-2147483648', 'i-2147483649', 'i4294967295', 'i4294967296', 'M', 'm', 'i9223372036854775806', 'i-9223372036854775807'];
const ODD_VALUES = ['N', 'T', 'F', 'd0', 'z', 'd1', 'd1.5', 'q', 'I', 's', 's0', 's1', 'sabc', [], ['i1'], 'o1', 'r'];
const ODD_OFFSETS = ['s0', 's1', 's01', 's-1', 'sx', 's', 'd0.9', 'd1', 'd-0.5', 'd-1', 'q', 'd1e30', 'I', 'T', 'F', 'N', ['i0'], 'o1', 'M', 'm'];

/* Documented conversion of an offset argument: int, or the class of the exception. */
function list_offset($o) {
    if (is_int($o)) return $o;
    if (is_bool($o)) return (int)$o;
    if (is_float($o)) return (int)$o;
    if (is_string($o) && (string)(int)$o === $o) return (int)$o;
    return 'TypeError';
}

/* BitVector::indexOf/contains answer for the negated bit (known finding BV-SEARCH, pinned by tests/BitVector/indexOf.phpt).
   The whole run must be consistent with exactly one of the two readings: the documented one or that inversion. */
function bv_target(bool $b): bool {
    static $inv = null;
    if ($inv === null) {
        $inv = (new Teds\BitVector([true]))->indexOf(true) === null;
        if ($inv) St::$notes[] = 'KF:BV-SEARCH';
    }
    return $inv ? !$b : $b;
}
class ListSys extends Sys {
    public string $cls; public array $cfg; public string $fq;
    public bool $typed;
    public function __construct(array $cfg) {
        $this->cfg = $cfg + ['N' => 8, 'ops' => 'full', 'classes' => null, 'inits' => null, 'ks' => [1, 2, 3]];
        $this->cls = $cfg['cls']; $this->fq = 'Teds\\' . $cfg['cls'];
        $this->typed = in_array($this->cls, ['IntVector', 'BitVector']);
        $this->cfg['classes'] ??= ['Vector' => ['any'], 'Deque' => ['any'], 'IntVector' => ['i8', 'i16', 'i32', 'i64'], 'LowMemoryVector' => ['bn', 'i8', 'i16', 'i32', 'i64', 'd', 'any'], 'BitVector' => ['t', 'f']][$this->cls];
    }
    public function accepts($v): bool { return $this->cls === 'IntVector' ? is_int($v) : ($this->cls === 'BitVector' ? is_bool($v) : true); }
    public function fresh(Ctx $c, string $cl) {
        $n = $c->fresh++;
        switch ($cl) {
            case 'i8': return (($n * 37 + 5) % 256) - 128;
            case 'i16': return $n % 2 ? 200 + $n : -200 - $n;
            case 'i32': return $n % 2 ? 40000 + $n : -40000 - $n;
            case 'i64': return $n % 2 ? 5000000000 + $n : -5000000000 - $n;
            case 'bn': return [null, false, true][$n % 3];
            case 'd': return $n + 0.25;
            case 't': return true;
            case 'f': return false;
            case 'p': return (bool)((0x9D2C5680 >> ($n % 31)) & 1);   // fixed bit pattern
            case 'e': return 7;                                        // repeated value
            case 'any': switch ($n % 6) {
                case 0: return 1000 + $n;
                case 1: return "s$n";
                case 2: return $c->memo["f$n"] = new Obj("f$n");
                case 3: return [$n, 'k' => "x$n"];
                case 4: return $n + 0.5;
                default: return "long string number $n";
            }
        }
        throw new HarnessError("class $cl");
    }
    private function rank(string $cl): int { return ['bn' => 1, 'i8' => 1, 'i16' => 2, 'i32' => 4, 'i64' => 8, 'd' => 16, 'any' => 32][$cl] ?? 0; }
    public function mk(Ctx $c, $spec): array { // argument spec: list of class names or ['=',token]
        $r = [];
        foreach ($spec as $s) {
            if (is_array($s)) $r[] = $c->v($s[1]);
            else { $r[] = $this->fresh($c, $s); $c->x['w'] = ($c->x['w'] ?? 0) | $this->rank($s); }
        }
        return $r;
    }
    public function init(): array {
        if ($this->cfg['inits']) return $this->cfg['inits'];
        $cl = $this->cfg['classes'][0];
        return [['new'], ['arr', []], ['gen', []], ['arr', [$cl]], ['arr', [$cl, $cl]], ['arr', array_fill(0, 3, $cl)], ['gen', array_fill(0, 3, $cl)], ['arr', array_fill(0, 4, $cl)], ['gen', array_fill(0, 5, $cl)], ['harr', array_fill(0, 5, $cl)]];
    }
    public function start(array $op): Ctx {
        $c = new Ctx; $c->x = ['w' => 0, 'off' => 0, 'cap' => 0];
        $spec = $op[1] ?? [];
        if (isset($op[2]) && is_int($op[2])) $spec = array_fill(0, $op[2], $spec[0]);
        $vals = $this->mk($c, $spec);
        $c->model = $vals;
        $q = $this->fq;
        switch ($op[0]) {
            case 'new': $c->impl = new $q; break;
            case 'arr': $c->impl = new $q($vals); break;
            case 'harr': $h = []; foreach ($vals as $i => $v) $h["k$i"] = $v; $h['gone'] = 1; unset($h['gone']); $c->impl = new $q($h); break;
            case 'gen': $c->impl = new $q(count($vals) % 2 ? new UniIt(array_values($vals), false) : (static function () use ($vals) { foreach ($vals as $v) yield 'k' => $v; })()); break;
            case 'push1': $c->impl = new $q; foreach ($vals as $v) $c->impl->push($v); break;
            case 'pushall': $c->impl = new $q; $c->impl->push(...$vals); break;
            case 'front1': $c->impl = new $q; foreach (array_reverse($vals) as $v) $c->impl->pushFront($v); break;
            case 'rot': // ring rotation: fill, then move k elements from the front to the back
                $k = $op[3]; $c->impl = new $q; foreach ($vals as $v) $c->impl->push($v);
                for ($i = 0; $i < $k; $i++) { $v = $c->impl->popFront(); $c->impl->push($v); $m = array_shift($c->model); $c->model[] = $m; }
                $c->x['off'] = $k; break;
            case 'over': // over-allocated, then shrunk by pops
                $k = $op[3]; $c->impl = new $q; foreach ($vals as $v) $c->impl->push($v);
                for ($i = 0; $i < $k; $i++) { $c->impl->push($vals[0] ?? $this->fresh($c, $this->cfg['classes'][0])); }
                for ($i = 0; $i < $k; $i++) $c->impl->pop();
                break;
            case 'clone': $t = new $q($vals); $c->impl = clone $t; break;
            default: throw new HarnessError('init ' . $op[0]);
        }
        return $c;
    }
    public function ops(Ctx $c): iterable {
        $n = count($c->model); $N = $this->cfg['N']; $full = $this->cfg['ops'] === 'full'; $cls = $this->cls;
        $cl = $this->cfg['classes']; $c0 = $cl[0];
        $room = $N - $n;
        $offs = $full || $n <= 4 ? range(0, $n) : array_values(array_unique([0, 1, 2, intdiv($n, 2), $n - 2, $n - 1, $n]));
        foreach ($cl as $k) {
            foreach ($this->cfg['ks'] as $j) if ($j <= $room) yield ['push', array_fill(0, $j, $k)];
            foreach ($this->cfg['ks'] as $j) if ($j <= $room) yield ['pushFront', array_fill(0, $j, $k)];
            if ($room >= 1) foreach ($offs as $o) yield ['insert', $o, [$k]];
            foreach ($offs as $o) if ($o < $n) yield ['set', $o, $k];
        }
        if (count($cl) > 1) { if ($room >= 2) { yield ['push', [$cl[0], end($cl)]]; yield ['push', [end($cl), $cl[0]]]; yield ['pushFront', [$cl[0], end($cl)]]; foreach ($offs as $o) { yield ['insert', $o, [end($cl), $cl[0]]]; yield ['insert', $o, [$cl[0], end($cl)]]; } } }
        else if ($room >= 2) foreach ($offs as $o) yield ['insert', $o, [$c0, $c0]];
        if ($room >= 3 && $n > 0) foreach ([1, intdiv($n, 2), $n - 1] as $o) yield ['insert', $o, [$c0, $c0, $c0]];
        foreach (['pop', 'popFront', 'clear'] as $m) yield [$m];
        foreach ($offs as $o) if ($o < $n) yield ['unset', "i$o"];
        if ($room >= 1) yield ['append', $cl[count($cl) - 1]];
        if (method_exists($this->fq, 'setSize')) {
            $dk = $cls === 'BitVector' ? 't' : 'any';
            $ss = $full ? range(0, min($N, $n + 5)) : array_unique([0, max(0, $n - 1), intdiv($n, 2), intdiv($n, 5), $n, min($N, $n + 1), min($N, $n + 7)]);
            foreach ($ss as $s) { yield ['setSize', $s]; if ($s >= $n) yield ['setSize', $s, $dk]; }
        }
        if ($cls === 'Vector') { foreach (array_unique([0, $n, $n + 1, 2 * $n + 1, 9, 17]) as $r) yield ['reserve', $r]; yield ['shrinkToFit']; }
        if ($cls === 'BitVector') {
            foreach ([8 => ['i90', 'i-3', 'i421'], 16 => ['i-23206', 'i70001'], 32 => ['i-1515870811', 'i4886718345'], 64 => ['i-6510615555426900571', 'i1']] as $w => $vs) {
                foreach (array_unique([0, intdiv($n, $w) - 1, intdiv($n, $w)]) as $o) if ($o >= 0) foreach ($vs as $v) yield ["setInt$w", $o, $v];
            }
        }
        if (!$full && $this->cfg['ops'] === 'core') return;
        /* operations that must fail, aliases, odd offsets, no-ops */
        yield ['push', []]; yield ['pushFront', []]; yield ['shift'];
        foreach ([0, $n] as $o) yield ['insert', $o, []];
        foreach ([-1, $n + 1, PHP_INT_MIN, PHP_INT_MAX, 4294967296, -4294967296, 1 << 20] as $o) { yield ['insert', $o, [$c0]]; yield ['insert', $o, []]; }
        foreach ([-1, $n, PHP_INT_MIN, PHP_INT_MAX, 1 << 20, 4294967296, 1 << 60] as $o) { yield ['set', $o, $c0]; yield ['offsetSet', "i$o", $c0]; yield ['aset', "i$o", $c0]; yield ['unset', "i$o"]; yield ['offsetUnset', "i$o"]; }
        if ($room >= 1) yield ['unshift', [$c0]];
        foreach ($offs as $o) if ($o < $n) { yield ['offsetSet', "i$o", $c0]; yield ['aset', "i$o", $c0]; yield ['offsetUnset', "i$o"]; }
        foreach (ODD_OFFSETS as $o) { yield ['offsetSet', $o, $c0]; yield ['aset', $o, $c0]; yield ['unset', $o]; yield ['offsetUnset', $o]; }
        if ($this->typed) {
            foreach (ODD_VALUES as $v) { if (is_array($v) || !$this->accepts($c->v($v))) {
                yield ['push', [['=', $v]]]; yield ['pushFront', [['=', $v]]]; yield ['append', ['=', $v]]; yield ['insert', 0, [['=', $v]]]; if ($n) { yield ['set', 0, ['=', $v]]; yield ['aset', 'i0', ['=', $v]]; yield ['offsetSet', 'i0', ['=', $v]]; } } }
            if ($cls === 'IntVector') { if ($room >= 2) foreach ($cl as $k) yield ['pushInts', [$k, $k]]; if ($n) foreach ($cl as $k) yield ['setInt', $n - 1, $k]; yield ['setInt', $n, $c0]; }
            else { if ($room >= 2) yield ['pushBits', ['t', 'f']]; if ($n) { yield ['setBit', $n - 1, 't']; yield ['setBit', 0, 'f']; } yield ['setBit', $n, 't']; }
        }
        if (method_exists($this->fq, 'setSize')) { yield ['setSize', -1]; }
        if (method_exists($this->fq, 'map')) { yield ['map', 'id']; yield ['map', 'wrap']; yield ['filter', 'none']; yield ['filter', 'odd']; yield ['filter', 'all']; yield ['filter', 'null']; }
        yield ['construct'];
    }
    public function step(Ctx $c, array $op): void {
        $v = $c->impl; $m = &$c->model; $n = count($m); $name = $op[0];
        if (St::$transitions < 0) return;
        $oob = 'OutOfBoundsException';
        switch ($name) {
            case 'push': case 'pushFront': case 'unshift': case 'pushInts': case 'pushBits':
                $a = $this->mk($c, $op[1]);
                $bad = false; foreach ($a as $x) if (!$this->accepts($x)) $bad = true;
                $got = outcome(static fn() => $v->$name(...$a));
                if ($bad) $exp = X('TypeError');
                else { $exp = R(); if ($name === 'pushFront' || $name === 'unshift') { foreach ($a as $x) array_unshift($m, $x); $c->x['off'] -= count($a); } else foreach ($a as $x) $m[] = $x; }
                break;
            case 'insert':
                $a = $this->mk($c, $op[2]); $o = $op[1];
                $bad = false; foreach ($a as $x) if (!$this->accepts($x)) $bad = true;
                $got = outcome(static fn() => $v->insert($o, ...$a));
                if ($o < 0 || $o > $n) $exp = X($bad ? "$oob|TypeError" : $oob);
                elseif ($bad) $exp = X('TypeError');
                else { $exp = R(); array_splice($m, $o, 0, array_map(static fn($x) => [$x], $a)); for ($i = $o; $i < $o + count($a); $i++) $m[$i] = $m[$i][0]; }
                break;
            case 'pop': $got = outcome(static fn() => $v->pop()); $exp = $n ? R(array_pop($m)) : X('UnderflowException'); break;
            case 'popFront': case 'shift': $got = outcome(static fn() => $v->$name()); $exp = $n ? R(array_shift($m)) : X('UnderflowException'); $c->x['off']++; break;
            case 'set': case 'setInt': case 'setBit': case 'offsetSet': case 'aset':
                $x = $this->mk($c, [$op[2]])[0];
                $dir = is_int($op[1]); $ro = $dir ? $op[1] : $c->v($op[1]);
                $o = $dir ? $ro : list_offset($ro);
                $got = outcome($name === 'aset' ? static function () use ($v, $ro, $x) { $v[$ro] = $x; } : static fn() => $v->$name($ro, $x));
                $ex = [];
                if ($o === 'TypeError') $ex[] = 'TypeError'; elseif ($o === null || $o < 0 || $o >= $n) { $ex[] = $oob; if ($this->cls === 'Deque' && $name === 'aset') $ex[] = 'RuntimeException'; }
                if (!$this->accepts($x)) $ex[] = 'TypeError';
                if ($ex) $exp = X(implode('|', $ex)); else { $exp = R(); $m[$o] = $x; }
                break;
            case 'append':
                $x = $this->mk($c, [$op[1]])[0];
                $got = outcome(static function () use ($v, $x) { $v[] = $x; });
                if ($this->accepts($x)) { $exp = R(); $m[] = $x; } else $exp = X('TypeError');
                break;
            case 'unset': case 'offsetUnset':
                $ro = $c->v($op[1]); $o = list_offset($ro);
                $got = outcome($name === 'unset' ? static function () use ($v, $ro) { unset($v[$ro]); } : static fn() => $v->offsetUnset($ro));
                if ($o === 'TypeError') $exp = X('TypeError'); elseif ($o === null || $o < 0 || $o >= $n) $exp = X($oob);
                else { $exp = R(); array_splice($m, $o, 1); if ($o === 0) $c->x['off']++; }
                break;
            case 'clear': $got = outcome(static fn() => $v->clear()); $exp = R(); $m = []; $c->x['w'] = 0; $c->x['off'] = 0; break;
            case 'setSize':
                $s = $op[1];
                $d = $this->cls === 'BitVector' ? false : null; $args = [$s];
                if (isset($op[2])) { $d = $this->mk($c, [$op[2]])[0]; $args[] = $d; }
                $got = outcome(static fn() => $v->setSize(...$args));
                if ($s < 0) $exp = X('ValueError'); else { $exp = R(); $m = array_slice($m, 0, $s); while (count($m) < $s) $m[] = $d; }
                break;
            case 'reserve': $got = outcome(static fn() => $v->reserve($op[1])); $exp = R(); if ($v->capacity() < $op[1]) throw new Violation("reserve({$op[1]}) left capacity " . $v->capacity()); break;
            case 'shrinkToFit': $got = outcome(static fn() => $v->shrinkToFit()); $exp = R(); break;
            case 'setInt8': case 'setInt16': case 'setInt32': case 'setInt64':
                $w = (int)substr($name, 6); $o = $op[1]; $x = $c->v($op[2]);
                $got = outcome(static fn() => $v->$name($o, $x));
                if ($o < 0 || $o > 1 << 40 || ($o + 1) * $w > $n) $exp = X($oob);
                else { $exp = R(); for ($b = 0; $b < $w; $b++) $m[$o * $w + $b] = (bool)(($x >> $b) & 1); }
                break;
            case 'map':
                $f = $op[1] === 'id' ? static fn($x) => $x : static fn($x) => [$x];
                $got = outcome(static fn() => $v->map($f)); $exp = R(array_map($f, $m));
                $this->derived($c, $got, $exp, "map"); return;
            case 'filter':
                $i = 0;
                $f = ['none' => static fn($x) => false, 'all' => static fn($x) => 1, 'odd' => static function ($x) use (&$i) { return $i++ % 2; }, 'null' => null][$op[1]];
                $got = outcome($f ? static fn() => $v->filter($f) : static fn() => $v->filter());
                $i = 0; $exp = R(array_values($f ? array_filter($m, $f) : array_filter($m)));
                $this->derived($c, $got, $exp, "filter"); return;
            case 'construct': $got = outcome(static fn() => $v->__construct([])); $exp = X('RuntimeException|r'); break;
            default: throw new HarnessError("op $name");
        }
        $this->cmp($exp, $got, json_encode($op));
        if ($v->count() !== count($m)) throw new Violation(json_encode($op) . ": count() is {$v->count()}, expected " . count($m));
        $cap = method_exists($v, 'capacity') ? $v->capacity() : 0;
        $c->x['realloc'] = $cap !== $c->x['cap'] || count($m) < $n || in_array($name, ['clear', 'setSize', 'reserve', 'shrinkToFit', 'construct'], true);
        if ($cap !== $c->x['cap']) { $c->x['cap'] = $cap; $c->x['off'] = 0; }
    }
    private function derived(Ctx $c, array $got, array $exp, string $what): void {
        if ($got[0] !== 'r' || !($got[1] instanceof $this->fq)) throw new Violation("$what: " . show($got));
        if ($got[1] === $c->impl) throw new Violation("$what returned the vector itself");
        expect($exp[1], $got[1]->values(), "$what result");
        expect($c->model, $c->impl->values(), "content after $what");
        $got[1]->push(1); $e = $exp[1]; $e[] = 1; expect($e, $got[1]->toArray(), "$what result after push");
    }
    public function cmp(array $exp, array $got, string $what): void {
        if ($exp[0] === 'x') { // any of the listed exceptions; '|r' means returning normally is also allowed
            $alts = explode('|', $exp[1]);
            if ($got[0] === 'x' ? in_array($got[1], $alts) : in_array('r', $alts)) { St::outcome($got[0] === 'x' ? $got[1] : 'returned'); return; }
            throw new Violation("$what: expected exception {$exp[1]}, got " . show($got));
        }
        if ($got[0] === 'r' && same($exp[1], $got[1])) { St::outcome('returned ' . get_debug_type($got[1])); return; }
        throw new Violation("$what: expected " . show($exp[1]) . ' got ' . show($got));
    }
    public function probe(Ctx $c, bool $full): void {
        $v = $c->impl; $m = $c->model; $n = count($m);
        expect($m, $v->values(), 'values()');
        expect($n, $v->count(), 'count()');
        if ($v->capacity() < $n) throw new Violation("capacity() {$v->capacity()} < count() $n");
        if ($this->cls === 'BitVector') $this->probeBits($c, $full);
        if (!$full) return;
        expect($m, $v->toArray(), 'toArray()');
        expect($n, count($v), 'count($v)');
        expect($n === 0, $v->isEmpty(), 'isEmpty()');
        $i = 0;
        foreach ($v as $k => $x) { expect($i, $k, 'foreach key'); if ($i >= $n) throw new Violation('foreach yields too many elements'); expect($m[$i], $x, "foreach value $i"); $i++; }
        expect($n, $i, 'number of foreach steps');
        foreach ([-1, $n, PHP_INT_MIN, PHP_INT_MAX, 1 << 20, 4294967296, -4294967296, 1 << 60] as $o) {
            $this->cmp(X('OutOfBoundsException'), outcome(static fn() => $v->get($o)), "get($o)");
            $this->cmp(X('OutOfBoundsException'), outcome(static fn() => $v[$o]), "[$o]");
            $this->cmp(X('OutOfBoundsException'), outcome(static fn() => $v->offsetGet($o)), "offsetGet($o)");
            expect(false, $v->offsetExists($o), "offsetExists($o)"); expect(false, isset($v[$o]), "isset [$o]"); expect(true, empty($v[$o]), "empty [$o]");
            expect('dflt', $v[$o] ?? 'dflt', "[$o] ??"); expect(false, $v->containsKey($o), "containsKey($o)");
        }
        for ($o = 0; $o < $n; $o++) {
            expect($m[$o], $v->get($o), "get($o)"); expect($m[$o], $v[$o], "[$o]"); expect($m[$o], $v->offsetGet($o), "offsetGet($o)"); expect($m[$o], $v[(string)$o], "['$o']");
            expect(true, $v->containsKey($o), "containsKey($o)"); expect(isset($m[$o]), isset($v[$o]), "isset [$o]"); expect(empty($m[$o]), empty($v[$o]), "empty [$o]"); expect($m[$o] ?? 'dflt', $v[$o] ?? 'dflt', "[$o] ??");
            if ($this->cls !== 'BitVector') expect(true, $v->contains($m[$o]) || is_float($m[$o]) && is_nan($m[$o]), "contains own $o");
            $w = $this->cls === 'BitVector' ? false : array_search($m[$o], $m, true); if ($w !== false) expect($w, $v->indexOf($m[$o]), "indexOf own $o");
        }
        foreach (['first' => 0, 'last' => $n - 1] + ($this->cls === 'Deque' ? ['bottom' => 0, 'top' => $n - 1] : []) as $f => $o)
            $this->cmp($n ? R($m[$o]) : X('UnderflowException'), outcome(static fn() => $v->$f()), $f);
        foreach ($this->cfg['absent'] ?? ['snope', 'i987654321', 'd0.125', 'N', 'T', 'F', 'oabsent'] as $t) {
            $x = $c->v($t); if (is_bool($x) && $this->cls === 'BitVector') continue;
            $w = array_search($x, $m, true);
            expect($w !== false, $v->contains($x), "contains " . show($x));
            if (!$this->typed || $this->accepts($x)) expect($w === false ? null : $w, $v->indexOf($x), "indexOf " . show($x));
        }
        if ($this->cls !== 'BitVector' && $n) foreach (confusable([$m[0], $m[$n - 1]]) as $x) { $w = array_search($x, $m, true); expect($w !== false, $v->contains($x), "contains " . show($x)); if (!$this->typed || $this->accepts($x)) expect($w === false ? null : $w, $v->indexOf($x), "indexOf " . show($x)); }
        foreach (ODD_OFFSETS as $t) {
            $x = $c->v($t); $o = list_offset($x);
            $in = is_int($o) && $o >= 0 && $o < $n;
            $te = $o === 'TypeError';
            $this->cmp($te ? X('TypeError') : ($in ? R($m[$o]) : X('OutOfBoundsException')), outcome(static fn() => $v[$x]), "[" . show($x) . "]");
            $this->cmp($te ? X('TypeError') : ($in ? R($m[$o]) : X('OutOfBoundsException')), outcome(static fn() => $v->offsetGet($x)), "offsetGet(" . show($x) . ")");
            if (!$te) expect($in && isset($m[$o]), isset($v[$x]), "isset [" . show($x) . "]");
            expect(is_int($x) && $in, $v->containsKey($x), "containsKey(" . show($x) . ")");
        }
        if ($n <= 40) $this->copies($v, $m);
        expect($m, $v->values(), 'values() after reading');
    }
    /* a copy of this state is a working collection of its own */
    private function copies($v, array $m): void {
        $plain = true; foreach ($m as $y) if (!is_scalar($y) && $y !== null) $plain = false; $x = $m[0] ?? ($this->cls === 'BitVector' ? true : 5);
        foreach ($plain ? ['clone', 'unserialize'] : ['clone'] as $w) {
            $d = $w === 'clone' ? clone $v : unserialize(serialize($v)); $k = $m; expect($k, $d->values(), "$w: values()"); if ($d->capacity() < count($k)) throw new Violation("$w: capacity() < count()");
            $d->push($x); $k[] = $x; expect($k, $d->values(), "$w, push"); $d->pushFront($x); array_unshift($k, $x); expect($k, $d->values(), "$w, pushFront"); $d->insert(1, $x); array_splice($k, 1, 0, [$x]); $d->set(0, $y = $k[count($k) - 1]); $k[0] = $y; expect($k, $d->values(), "$w, insert and set");
            unset($d[1]); array_splice($k, 1, 1); expect($k, $d->values(), "$w, unset"); expect(array_pop($k), $d->pop(), "$w, pop"); expect($k, $d->values(), "$w, pop"); expect(array_shift($k), $d->popFront(), "$w, popFront"); expect($k, $d->values(), "$w, popFront"); expect($m, $k, 'model of the copy');
        }
    }
    /* Fill the reported capacity and one more, compare, then drain from both ends: storage smaller or content other than reported shows up here. */
    public function tail(Ctx $c): void {
        $v = $c->impl; $cap = $v->capacity(); $n = count($c->model);
        if ($cap - $n > 1200 || !($c->x['realloc'] ?? true)) return;
        $x = $n ? $c->model[$n - 1] : $this->fresh($c, $this->cfg['classes'][0]);
        for ($i = $n; $i <= $cap; $i++) { $v->push($x); $c->model[] = $x; }
        expect($c->model, $v->values(), 'values() after filling the capacity');
        if ($cap > 20 || $cap === $n) return;
        $m = $c->model; $got = []; $exp = [];
        while ($m) { if (count($m) % 3) { $exp[] = array_pop($m); $got[] = $v->pop(); } else { $exp[] = array_shift($m); $got[] = $v->popFront(); } if (count($m) === 3) { expect($m, $v->values(), 'values() while draining'); } }
        expect($exp, $got, 'elements drained from both ends'); expect(0, $v->count(), 'count() after draining');
        $v->push($x); $v->push($x); expect([$x, $x], $v->values(), 'content after draining and pushing');
    }
    public static function bytes(array $m): string {
        $s = ''; for ($i = 0, $n = count($m); $i < $n; $i += 8) { $b = 0; for ($j = 0; $j < 8 && $i + $j < $n; $j++) if ($m[$i + $j]) $b |= 1 << $j; $s .= chr($b); }
        return $s;
    }
    private function probeBits(Ctx $c, bool $full): void {
        $v = $c->impl; $m = $c->model; $n = count($m);
        $bytes = self::bytes($m);
        expect($bytes, $v->toBinaryString(), 'toBinaryString()');
        $pad = $bytes . str_repeat("\0", 8);
        foreach ([8 => 'getInt8', 16 => 'getInt16', 32 => 'getInt32', 64 => 'getInt64'] as $w => $f) {
            $cnt = intdiv($n, $w); $u = 'getUInt' . $w;
            foreach ($full ? [...range(0, $cnt), -1, PHP_INT_MAX, PHP_INT_MIN, 1 << 58, 1 << 59, 1 << 61, intdiv(PHP_INT_MAX, $w) + 1] : array_unique([0, max(0, $cnt - 1), $cnt]) as $o) {
                if ($o >= 0 && $o < $cnt) {
                    $val = 0; for ($b = 0; $b < $w; $b++) if ($m[$o * $w + $b]) $val |= 1 << $b;
                    $sg = $w < 64 && $val >= 1 << ($w - 1) ? $val - (1 << $w) : $val;
                    expect($sg, $v->$f($o), "$f($o)"); if ($w < 64) expect($val, $v->$u($o), "$u($o)");
                } else {
                    $this->cmp(X('OutOfBoundsException'), outcome(static fn() => $v->$f($o)), "$f($o)");
                    if ($w < 64) $this->cmp(X('OutOfBoundsException'), outcome(static fn() => $v->$u($o)), "$u($o)");
                    if ($full) { $s = 'setInt' . $w; $this->cmp(X('OutOfBoundsException'), outcome(static fn() => $v->$s($o, -1)), "$s($o)"); expect($m, $v->values(), "content after failing $s($o)"); }
                }
            }
        }
        foreach ([true, false] as $b) { $w = array_search(bv_target($b), $m, true); expect($w === false ? null : $w, $v->indexOf($b), 'indexOf'); expect($w !== false, $v->contains($b), 'contains'); }
        if (!$full) return;
        $b2 = Teds\BitVector::fromBinaryString($bytes);
        $mm = $m; while (count($mm) % 8) $mm[] = false;
        expect($mm, $b2->values(), 'fromBinaryString(bytes)');
        expect($m, Teds\BitVector::unserialize($v->serialize())->values(), 'serialize round trip');
    }
    public function key(Ctx $c): string {
        $v = $c->impl; $n = $v->count(); $cap = $v->capacity();
        if ($this->cls === 'BitVector') return $cap . ':' . implode('', array_map('intval', $c->model));
        $k = $n . '/' . $cap;
        if ($this->cls === 'Deque') return $k . '@' . ($cap > 0 ? (($c->x['off'] % $cap) + $cap) % $cap : 0);
        if ($this->cls !== 'Vector') return $k . 'w' . $c->x['w'];
        return $k;
    }
    /* Sizes beyond the 8 and 16 bit boundaries. */
    public static function huge(array $job): void {
        $cls = $job['cls']; $k = $job['class']; $n = $job['n']; $S = new ListSys(['cls' => $cls, 'N' => PHP_INT_MAX >> 1, 'classes' => $cls === 'BitVector' ? ['t', 'f'] : [$k]]);
        $check = static function (Ctx $c, string $what) {
            $got = $c->impl->values();
            if ($got !== $c->model) { if (count($got) !== count($c->model)) throw new Violation("$what: " . count($got) . ' elements, expected ' . count($c->model)); foreach ($got as $i => $x) if (!same($x, $c->model[$i])) throw new Violation("$what: element $i is " . show($x) . ' expected ' . show($c->model[$i])); }
            $i = 0; foreach ($c->impl as $kk => $x) { if ($kk !== $i || !($x === $c->model[$i])) throw new Violation("$what: foreach at $i"); $i++; } expect(count($c->model), $i, "$what: foreach count");
            $v = $c->impl; $m = $c->model; $n = count($m);
            foreach ([0, 1, 254, 255, 256, 257, 65534, 65535, 65536, 65537, $n >> 1, $n - 2, $n - 1] as $o) if ($o >= 0 && $o < $n) { expect($m[$o], $v->get($o), "$what: get($o)"); expect($m[$o], $v[$o], "$what: [$o]"); }
            if (!$n) return;
            expect($m[0], $v->first(), "$what: first"); expect($m[$n - 1], $v->last(), "$what: last");
            if ($cls = $v instanceof Teds\BitVector) { foreach ([true, false] as $b) { $w = array_search(bv_target($b), $m, true); expect($w === false ? null : $w, $v->indexOf($b), "$what: indexOf"); } expect(self::bytes($m), $v->toBinaryString(), "$what: toBinaryString"); }
            else { foreach ([$n - 1, $n >> 1, 0] as $o) { $w = array_search($m[$o], $m, true); expect($w, $v->indexOf($m[$o]), "$what: indexOf"); expect(true, $v->contains($m[$o]), "$what: contains"); } $absent = 987654321987; if (!in_array($absent, $m, true)) { expect(null, $v->indexOf($absent), "$what: indexOf absent"); expect(false, $v->contains($absent), "$what: contains absent"); } }
        };
        $ops = [[], [['push', [$k]]], [['push', array_fill(0, 300, $k)]], [['pushFront', [$k]]], [['pushFront', array_fill(0, 300, $k)]], [['insert', $n >> 1, [$k]]], [['insert', 1, array_fill(0, 300, $k)]], [['insert', $n, [$k, $k]]], [['pop']], [['popFront']], [['unset', 'i0']], [['unset', 'i' . ($n >> 1)]], [['unset', 'i' . ($n - 1)]], [['set', $n - 1, $k]], [['aset', 'i256', $k]], [['append', $k]], [['clear'], ['push', [$k]]]];
        if (method_exists($S->fq, 'setSize')) foreach ([0, 100, 255, 256, 257, $n - 1, $n + 300] as $z) $ops[] = [['setSize', $z]];
        if ($cls === 'Vector') { $ops[] = [['pop'], ['shrinkToFit'], ['push', [$k]]]; $ops[] = [['reserve', 2 * $n], ['push', [$k]]]; }
        foreach ([['arr', [$k], $n], ['gen', [$k], $n], ['push1', [$k], $n], ...($n < 1000 ? [['front1', [$k], $n]] : []), ['clone', [$k], $n], ['over', [$k], $n, $n]] as $wi => $way) foreach ($ops as $oi => $seq) {
            if ($n > 1000 && $wi > 0 && $oi % 4 !== $wi % 4 && $seq) continue;   // beyond 2^16: all operations on one route, a quarter of them on each other route
            Cases::run([$way[0], $oi], static function () use ($S, $way, $seq, $check) {
                set_time_limit(120);
                $c = $S->start($way); St::$traces++; $c->x['cap'] = $c->impl->capacity();
                foreach ($seq as $op) { $S->step($c, $op); St::$transitions++; }
                $check($c, json_encode([$way[0], array_map(static fn($o) => $o[0], $seq)]));
            });
        }
        // swing: up to 2n+, down by each remover to several levels, up again
        foreach (['pop', 'popFront', 'unset', 'mixed'] as $rem) {
            if ($n > 1000 && $rem !== 'pop' && ($cls !== 'Deque' || $rem !== 'popFront')) { $cnt = 40; } else $cnt = null;
            Cases::run(['swing', $rem], static function () use ($S, $rem, $n, $k, $check, $cnt) {
                set_time_limit(120);
                $c = $S->start(['push1', [$k], 2 * $n + 5]); St::$traces++; $q = $c->impl; $m = $c->model;
                $lo = $cnt === null ? 0 : count($m) - $cnt; $marks = [$n, $n >> 1, 33000, 257, 256, 255, 129, 127, 64, 33, 17, 9, 3, 0]; $i = 0;
                while (count($m) > $lo) {
                    $r = $rem === 'mixed' ? ['pop', 'popFront', 'unset'][$i++ % 3] : $rem;
                    if ($r === 'pop') { $e = array_pop($m); $g = $q->pop(); } elseif ($r === 'popFront') { $e = array_shift($m); $g = $q->popFront(); } else { $o = count($m) >> 1; array_splice($m, $o, 1); unset($q[$o]); $e = $g = null; }
                    St::$transitions++;
                    if ($e !== $g) throw new Violation("swing $r: got " . show($g) . ' expected ' . show($e));
                    if (in_array(count($m), $marks, true) || count($m) === $lo) { // fill the capacity on a clone and on the vector
                        $cl = clone $q; foreach ([$cl, $q] as $which => $t) { $add = $t->capacity() - count($m) + 1; if ($add > 70000 || $add < 0) continue; $e2 = $m; for ($j = 0; $j < $add; $j++) { $x = $m[$j % max(1, count($m))] ?? $S->fresh($c, $k); $t->push($x); $e2[] = $x; } if ($t->values() !== $e2) throw new Violation('swing: content after filling the capacity at ' . count($m)); if ($which) for ($j = 0; $j < $add; $j++) $t->pop(); }
                    }
                }
                $c->model = $m; $check($c, 'after the swing');
            });
        }
        St::sample([$job['name']]);
    }
    /* Values at type boundaries: every stored pair, every way of storing, every searched value. */
    public static function boundary(array $job): void {
        $q = 'Teds\\' . $job['cls']; $int = $job['cls'] === 'IntVector';
        $c = new Ctx;
        $toks = $int ? INT_BOUNDS : [...INT_BOUNDS, ...ODD_VALUES];
        $vals = array_map(fn($t) => $c->v($t), $toks);
        $nan = fn($x) => is_float($x) && is_nan($x);
        $ways = [
            'ctor' => fn($a, $b) => new $q([$a, $b]),
            'gen' => fn($a, $b) => new $q((function () use ($a, $b) { yield $a; yield $b; })()),
            'push' => function ($a, $b) use ($q) { $v = new $q; $v->push($a); $v->push($b); return $v; },
            'push2' => function ($a, $b) use ($q) { $v = new $q; $v->push($a, $b); return $v; },
            'append' => function ($a, $b) use ($q) { $v = new $q([$a]); $v[] = $b; return $v; },
            'front' => function ($a, $b) use ($q) { $v = new $q([$b]); $v->pushFront($a); return $v; },
            'front2' => function ($a, $b) use ($q) { $v = new $q(); $v->pushFront($b, $a); return $v; },
            'ins0' => function ($a, $b) use ($q) { $v = new $q([$b]); $v->insert(0, $a); return $v; },
            'ins1' => function ($a, $b) use ($q) { $v = new $q([$a]); $v->insert(1, $b); return $v; },
            'ins2' => function ($a, $b) use ($q) { $v = new $q; $v->insert(0, $a, $b); return $v; },
            'set' => function ($a, $b) use ($q) { $v = new $q([$a, $a]); $v->set(1, $b); return $v; },
            'set0' => function ($a, $b) use ($q) { $v = new $q([$b, $b]); $v->set(0, $a); return $v; },
            'aset' => function ($a, $b) use ($q) { $v = new $q([$a, $a]); $v[1] = $b; return $v; },
            'oset' => function ($a, $b) use ($q) { $v = new $q([$b, $b]); $v->offsetSet(0, $a); return $v; },
            'unser' => fn($a, $b) => unserialize(serialize(new $q([$a, $b]))),
            'state' => fn($a, $b) => $q::__set_state([$a, $b]),
            'clone' => function ($a, $b) use ($q) { $v = clone new $q([$a]); $v->push($b); return $v; },
            'pop' => function ($a, $b) use ($q) { $v = new $q([$a, $b, $a]); $v->pop(); return $v; },
            'popf' => function ($a, $b) use ($q) { $v = new $q([$b, $a, $b]); $v->popFront(); return $v; },
            'unset' => function ($a, $b) use ($q) { $v = new $q([$a, $b, $b]); unset($v[1]); return $v; },
            'clear' => function ($a, $b) use ($q) { $v = new $q([$b, $b]); $v->clear(); $v->push($a); $v[] = $b; return $v; },
            'long' => function ($a, $b) use ($q) { $v = new $q; for ($i = 0; $i < 9; $i++) $v->push($a); $v->push($b); for ($i = 0; $i < 8; $i++) $v->popFront(); return $v; },
        ];
        if ($int) $ways['setInt'] = function ($a, $b) use ($q) { $v = new $q([$a, $a]); $v->setInt(1, $b); return $v; };
        if ($int) $ways['pushInts'] = function ($a, $b) use ($q) { $v = new $q; $v->pushInts($a, $b); return $v; };
        foreach ($ways as $w => $f) {
            if (isset($job['ways']) && !in_array($w, $job['ways'])) continue;
            foreach ($vals as $i => $a) { if ($job['cls'] !== 'IntVector' && is_resource($a) && in_array($w, ['unser'])) continue;
                foreach ($vals as $j => $b) {
                if ($w === 'unser' && (is_resource($b) || is_object($a) || is_object($b))) continue;
                Cases::run([$w, $i, $j], function () use ($f, $a, $b, $vals, $w, $nan) {
                    $v = $f($a, $b); St::$transitions++; St::$distinct++;
                    expect([$a, $b], $v->values(), "content after $w");
                    expect($a, $v->get(0), 'get(0)'); expect($b, $v[1], '[1]'); expect($b, $v->last(), 'last()'); expect($a, $v->first(), 'first()');
                    foreach ($v as $k => $x) expect($k ? $b : $a, $x, "foreach $k");
                    foreach ($vals as $s) {
                        if ($nan($s)) continue;
                        $e = $a === $s ? 0 : ($b === $s ? 1 : null);
                        expect($e !== null, $v->contains($s), 'contains ' . show($s));
                        expect($e, $v->indexOf($s), 'indexOf ' . show($s));
                        St::$transitions += 2;
                    }
                    // remove one element and store again: the representation may not remember less than the value
                    $p = $v->pop(); expect($b, $p, 'pop()'); $v->push($b); $v->push($a); expect([$a, $b, $a], $v->toArray(), 'content after pop and pushes');
                    expect($a, $v->popFront(), 'popFront()'); expect([$b, $a], $v->values(), 'content after popFront');
                });
            } }
        }
        St::sample("two stored values from " . count($vals) . " boundary values, ways " . implode(',', array_keys($ways)));
    }
}
