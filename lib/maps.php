<?php
require_once __DIR__ . '/model.php';
/* Model and explorer of maps and sets: StrictHashMap/Set, StrictTreeMap/Set, StrictSortedVectorMap/Set, SortedIntVectorSet.
   Model: list of [key, value] in iteration order (sets: value === key). */
class KVSys extends Sys {
    public array $cfg; public string $cls; public string $fq; public bool $map; public bool $sorted; public bool $ends; public bool $intset;
    public function __construct(array $cfg) {
        $this->cfg = $cfg + ['N' => 6, 'pool' => null, 'inits' => [['new']], 'ops' => 'full', 'fresh' => null];
        $this->cls = $cfg['cls']; $this->fq = 'Teds\\' . $cfg['cls'];
        $this->map = str_ends_with($this->cls, 'Map'); $this->sorted = !str_contains($this->cls, 'Hash');
        $this->intset = $this->cls === 'SortedIntVectorSet'; $this->ends = $this->sorted;
    }
    public function eq($a, $b): bool { return $this->sorted ? mcmp($a, $b) === 0 : meq($a, $b); }
    public function find(Ctx $c, $k): ?int { foreach ($c->model as $i => [$x]) if ($this->eq($x, $k)) return $i; return null; }
    public function accepts($k): bool { return !$this->intset || is_int($k); }
    public function init(): array { return $this->cfg['inits']; }
    public function tree(): bool { return str_contains($this->cls, 'Tree'); }
    /* model insertion; returns true when new */
    public function put(Ctx $c, $k, $v): bool {
        $i = $this->find($c, $k);
        if ($i !== null) { if ($this->map) $c->model[$i][1] = $v; return false; }
        $e = [$k, $this->map ? $v : $k];
        if (!$this->sorted) { $c->model[] = $e; return true; }
        $at = 0; foreach ($c->model as [$x]) { if (mcmp($x, $k) < 0) $at++; else break; }
        array_splice($c->model, $at, 0, [$e]);
        return true;
    }
    public function start(array $op): Ctx {
        $c = new Ctx; $c->model = []; $c->x = ['slots' => '', 'cap' => 0]; $q = $this->fq;
        $pairs = [];
        foreach ($op[1] ?? [] as $t) { $k = $this->keyOf($c, $t); $pairs[] = [$k, $this->fv($c)]; }
        foreach ($pairs as [$k, $v]) { $new = $this->put($c, $k, $v); if ($new) $c->x['slots'] .= 'x'; }
        switch ($op[0]) {
            case 'new': $c->impl = new $q; break;
            case 'ctor': // sets: list of values; maps: array keys
                if ($this->map) { $a = []; foreach ($pairs as [$k, $v]) $a[$k] = $v; $c->impl = new $q($a); }
                else $c->impl = new $q(array_column($pairs, 0));
                break;
            case 'harr': $a = ['gone' => 1]; foreach ($pairs as $i => [$k]) $a["k$i"] = $k; unset($a['gone']); $c->impl = new $q($a); break;
            case 'gen': $map = $this->map; $c->impl = new $q(count($pairs) % 2 ? new UniIt($map ? array_values($pairs) : array_column($pairs, 0), $map) : (static function () use ($pairs, $map) { foreach ($pairs as [$k, $v]) if ($map) yield $k => $v; else yield $k; })()); break;
            case 'pairs': $c->impl = $q::fromPairs($pairs); break;
            case 'pairsgen': $c->impl = $q::fromPairs(count($pairs) % 2 ? new UniIt(array_values($pairs), false) : (static function () use ($pairs) { foreach ($pairs as $p) yield $p; })()); break;
            case 'setstate': $c->impl = $q::__set_state($this->map ? $pairs : array_column($pairs, 0)); break;
            case 'one': $c->impl = new $q; foreach ($pairs as [$k, $v]) { if ($this->map) $c->impl[$k] = $v; else $c->impl->add($k); } break;
            default: throw new HarnessError($op[0]);
        }
        return $c;
    }
    public function fv(Ctx $c) { $n = $c->fresh++; return $n % 3 === 0 ? "v$n" : ($n % 3 === 1 ? $n + 100 : [$n]); }
    /* key tokens: ordinary tokens, or 'A3'/'B3': 4th key of hash-collision class A/B, or 'g<frac>': ordered rational */
    public function keyOf(Ctx $c, $t) {
        if (is_string($t) && ($t[0] === 'A' || $t[0] === 'B')) return self::collide($t[0] === 'A' ? 0 : 1, (int)substr($t, 1));
        return $c->v($t);
    }
    /* n-th integer key whose strict_hash has the same low 6 bits as class $cl (full low byte for odd n) */
    public static function collide(int $cl, int $n): int {
        static $found = [[], []], $next = 1, $target = null;
        $target ??= [Teds\strict_hash(1) & 63, (Teds\strict_hash(1) & 63) ^ 1];
        while (count($found[$cl]) <= $n) {
            $h = Teds\strict_hash($next) & 63;
            foreach ([0, 1] as $i) if ($h === $target[$i]) $found[$i][] = $next;
            if (++$next > 5000000) throw new HarnessError('no colliding keys');
        }
        return $found[$cl][$n];
    }
    public function ops(Ctx $c): iterable {
        $n = count($c->model); $room = $this->cfg['N'] - $n;
        if ($this->cfg['fresh'] === 'rank') { // insert in every gap, remove every rank: keys are rationals
            $ks = array_column($c->model, 0);
            if ($room > 0) for ($i = 0; $i <= $n; $i++) {
                $x = $n === 0 ? 0.0 : ($i === 0 ? $ks[0] - 1.0 : ($i === $n ? $ks[$n - 1] + 1.0 : ($ks[$i - 1] + $ks[$i]) / 2));
                yield ['put', 'd' . $x];
            }
            foreach ($ks as $k) { yield ['del', "d$k"]; if ($this->map) yield ['put', "d$k"]; }
            yield ['del', 'd0.3333']; yield ['pop']; yield ['popFront']; yield ['clear'];
            return;
        }
        if ($this->cfg['fresh'] === 'coll') { // hash classes: a new key of each class, remove/update every present key, touch removed keys
            foreach ($this->cfg['hcl'] ?? ['A', 'B'] as $cl) { $m = $c->x['n' . $cl] ?? 0; if (strlen($c->x['slots']) < $this->cfg['slots'] ) yield ['put', $cl . $m]; }
            foreach ($c->x['live'] ?? [] as $t) { yield ['del', $t]; if ($this->map) yield ['put', $t]; }
            if ($c->x['dead'] ?? null) yield ['del', $c->x['dead']];
            yield ['clear'];
            return;
        }
        foreach ($this->cfg['pool'] as $t) { if ($room > 0 || $this->find($c, $this->keyOf($c, $t)) !== null) yield ['put', $t]; yield ['del', $t]; }
        if ($this->map && $this->cfg['ops'] === 'full') foreach ($this->cfg['pool'] as $t) { if ($room > 0 || $this->find($c, $this->keyOf($c, $t)) !== null) { yield ['oset', $t]; yield ['setnull', $t]; } yield ['odel', $t]; }
        if ($this->ends) { yield ['pop']; if (!$this->intset) { yield ['popFront']; yield ['shift']; } }
        yield ['clear'];
        if ($this->map && $this->cfg['ops'] === 'full') yield ['append'];
        if ($this->intset) foreach (ODD_V as $t) { yield ['put', $t]; yield ['del', $t]; }
    }
    public function step(Ctx $c, array $op): void {
        $v = $c->impl; $n = count($c->model);
        switch ($op[0]) {
            case 'put': case 'oset': case 'setnull':
                $k = $this->keyOf($c, $op[1]);
                if ($this->map) {
                    $x = $op[0] === 'setnull' ? null : $this->fv($c);
                    $got = outcome($op[0] === 'oset' ? static fn() => $v->offsetSet($k, $x) : static function () use ($v, $k, $x) { $v[$k] = $x; });
                    $new = $this->put($c, $k, $x); $exp = R();
                } else {
                    $got = outcome(static fn() => $v->add($k));
                    if (!$this->accepts($k)) $exp = X('TypeError'); else { $new = $this->put($c, $k, $k); $exp = R($new); }
                }
                if (!empty($new)) { $c->x['slots'] .= $op[1][0]; $c->x['live'][] = $op[1]; if ($op[1][0] === 'A' || $op[1][0] === 'B') $c->x['n' . $op[1][0]] = 1 + (int)substr($op[1], 1); $this->shadow($c); }
                break;
            case 'del': case 'odel':
                $k = $this->keyOf($c, $op[1]); $i = $this->find($c, $k);
                if ($this->map) { $got = outcome($op[0] === 'odel' ? static fn() => $v->offsetUnset($k) : static function () use ($v, $k) { unset($v[$k]); }); $exp = R(); }
                else { $got = outcome(static fn() => $v->remove($k)); $exp = R($i !== null);
                    if ($this->intset && !is_int($k) && $got === X('TypeError')) $exp = $got;   // a set of ints may refuse or report absence
                    if ($this->intset && $i !== null && $got === R(false)) { $exp = $got; St::note('KF:SIVS-REMOVE'); } }
                if ($i !== null) { array_splice($c->model, $i, 1); $this->kill($c, $op[1]); $c->x['dead'] = $op[1]; }
                break;
            case 'pop': $got = outcome(static fn() => $v->pop()); if (!$n) $exp = X('UnderflowException'); else { $e = array_pop($c->model); $exp = R($this->map ? $e : $e[0]); } break;
            case 'popFront': case 'shift': $f = $op[0]; $got = outcome(static fn() => $v->$f()); if (!$n) $exp = X('UnderflowException'); else { $e = array_shift($c->model); $exp = R($this->map ? $e : $e[0]); } break;
            case 'clear': $got = outcome(static fn() => $v->clear()); $exp = R(); $c->model = []; $c->x['slots'] = ''; $c->x['live'] = []; break;
            case 'append': $got = outcome(static function () use ($v) { $v[] = 1; }); $exp = X('RuntimeException'); break;
            default: throw new HarnessError($op[0]);
        }
        if ($exp[0] !== $got[0] || ($exp[0] === 'x' ? $exp[1] !== $got[1] : !same($exp[1], $got[1]))) throw new Violation(json_encode($op) . ': expected ' . show($exp) . ' got ' . show($got));
        St::outcome($op[0] . ' ' . ($got[0] === 'x' ? $got[1] : get_debug_type($got[1])));
        if ($v->count() !== count($c->model)) throw new Violation(json_encode($op) . ': count() is ' . $v->count() . ', expected ' . count($c->model));
    }
    /* shadow of the slot layout of a hash table: gaps are squeezed out when the table is full */
    private function shadow(Ctx $c): void {
        $s = $c->x['slots']; $cap = $c->x['cap'] ?: 8;
        if (strlen($s) > $cap) { $t = str_replace('_', '', $s); if (strlen($t) === strlen($s)) $cap *= 2; $s = $t; }
        while (strlen($s) > $cap) $cap *= 2;
        $c->x['slots'] = $s; $c->x['cap'] = $cap;
    }
    private function kill(Ctx $c, $t): void {
        $j = array_search($t, $c->x['live'] ?? [], true); if ($j === false) return;
        array_splice($c->x['live'], $j, 1);
        $s = $c->x['slots']; $k = -1;
        for ($i = 0; $i < strlen($s); $i++) if ($s[$i] !== '_' && ++$k === $j) { $s[$i] = '_'; break; }
        $c->x['slots'] = rtrim($s, '_');
    }
    public function tail(Ctx $c): void { // more keys than any spare capacity, compare, remove most again, compare
        if ($this->tree() || $this->cfg['fresh'] === 'coll') return;
        $v = $c->impl; $k0 = 50000000; $n = count($c->model); $add = $n > 40 ? 4 : ($this->sorted ? 17 : 9);
        for ($i = 0; $i < $add; $i++) { $k = $k0 + ($i * 7) % $add; if ($this->map) $v[$k] = $i; else $v->add($k); $this->put($c, $k, $this->map ? $i : $k); }
        $this->same($c, 'after adding keys');
        for ($i = 0; $i < $add - 1; $i++) { $k = $k0 + $i; if ($this->map) unset($v[$k]); else $v->remove($k); array_splice($c->model, $this->find($c, $k), 1); }
        $this->same($c, 'after removing keys');
    }
    private function same(Ctx $c, string $what): void {
        expect(count($c->model), $c->impl->count(), "count() $what");
        if ($this->map) expect($c->model, $c->impl->toPairs(), "toPairs() $what"); else expect(array_column($c->model, 0), $c->impl->values(), "values() $what");
    }
    public function key(Ctx $c): string {
        if ($this->tree() && $this->cfg['fresh'] === 'rank') return self::shape($c->impl->debugGetTreeRepresentation());
        if ($this->cfg['fresh'] === 'coll') return $c->x['cap'] . ':' . $c->x['slots'] . ':' . (isset($c->x['dead']) ? $c->x['dead'][0] : '');
        if ($this->cfg['fresh'] === 'rank') return (string)count($c->model);
        return ($this->tree() ? self::shape($c->impl->debugGetTreeRepresentation()) : '') . repr($this->sorted ? array_column($c->model, 0) : [$c->x['slots'], array_column($c->model, 0)]);
    }
    public static function shape(array $t): string { return $t ? '(' . ($t['red'] ? 'r' : 'b') . self::shape($t['left']) . self::shape($t['right']) . ')' : '.'; }
    /* red-black invariants and order on the exposed structure; returns black height */
    public static function rb(array $t, bool $parentRed, array &$keys): int {
        if (!$t) return 1;
        if ($t['red'] && $parentRed) throw new Violation('red node with red parent');
        $l = self::rb($t['left'], $t['red'], $keys); $keys[] = $t['key']; $r = self::rb($t['right'], $t['red'], $keys);
        if ($l !== $r) throw new Violation("black heights differ: $l and $r");
        return $l + ($t['red'] ? 0 : 1);
    }
    public function probe(Ctx $c, bool $full): void {
        $v = $c->impl; $n = count($c->model); $ks = array_column($c->model, 0); $vs = array_column($c->model, 1);
        expect($n, $v->count(), 'count()'); expect($vs, $v->values(), 'values()');
        if ($this->map) { expect($ks, $v->keys(), 'keys()'); expect($c->model, $v->toPairs(), 'toPairs()'); }
        if ($this->tree()) {
            expect(true, $v->debugIsBalanced(), 'debugIsBalanced()');
            $t = $v->debugGetTreeRepresentation(); if ($t && $t['red'] && $n > 1 && false) throw new Violation('red root');
            $got = []; self::rb($t, false, $got); expect($ks, $got, 'in-order keys of the tree');
        }
        // membership of every key in the universe
        $univ = $this->cfg['pool'] ?? [];
        if ($this->cfg['fresh'] === 'coll') foreach (['A', 'B'] as $cl) for ($i = 0, $m = ($c->x['n' . $cl] ?? 0) + 1; $i < $m; $i++) $univ[] = $cl . $i;
        foreach ($univ as $t) $this->lookup($c, $this->keyOf($c, $t), $full);
        if (!$full) return;
        if ($this->cfg['fresh'] === 'rank') foreach ($ks as $i => $k) { $this->lookup($c, $k); $this->lookup($c, $k - 0.5); $this->lookup($c, $i); }
        expect($n, count($v), 'count($v)'); expect($n === 0, $v->isEmpty(), 'isEmpty()');
        $i = 0;
        foreach ($v as $k => $x) {
            if ($i >= $n) throw new Violation('foreach yields too many elements');
            if ($this->map) { expect($ks[$i], $k, "foreach key $i"); expect($vs[$i], $x, "foreach value $i"); }
            else expect($ks[$i], $x, "foreach value $i");
            $i++;
        }
        expect($n, $i, 'foreach steps');
        if ($this->ends) {
            $alias = $this->intset ? ['first' => 0, 'last' => $n - 1] : ['first' => 0, 'last' => $n - 1, 'bottom' => 0, 'top' => $n - 1];
            foreach ($alias as $f => $o) $this->chk($n ? R($vs[$o]) : X('UnderflowException'), outcome(static fn() => $v->$f()), $f);
            if ($this->map) foreach (['firstKey' => 0, 'lastKey' => $n - 1, 'bottomKey' => 0, 'topKey' => $n - 1] as $f => $o) $this->chk($n ? R($ks[$o]) : X('UnderflowException'), outcome(static fn() => $v->$f()), $f);
        }
        if ($this->map) {
            foreach ([...$vs, 'nope', null, 100, '100', 100.0] as $x) { $e = false; foreach ($vs as $y) if (meq($x, $y)) $e = true; expect($e, $v->contains($x), 'contains ' . show($x)); expect($e, $v->containsValue($x), 'containsValue ' . show($x)); }
        }
        if ($this->intset) {
            foreach (['i-1', "i$n", 'M', 'm'] as $t) { $o = $c->v($t); $this->chk(X('OutOfBoundsException'), outcome(static fn() => $v->get($o)), "get($o)"); }
            foreach ($ks as $i => $k) { expect($k, $v->get($i), "get($i)"); expect($i, $v->indexOf($k), "indexOf($k)"); }
        }
        $this->copies($c, $ks);
        expect($vs, $v->values(), 'values() after reading');
    }
    /* a copy of this state is a working collection of its own: every single key can be found in it, removed from it and added again */
    private function copies(Ctx $c, array $ks): void {
        $v = $c->impl; $n = count($ks); if ($n > 12) return; $plain = true; foreach ($ks as $k) if (!is_scalar($k) && $k !== null) $plain = false; foreach ($c->model as $p) if (!is_scalar($p[1]) && $p[1] !== null) $plain = false;
        foreach ($plain ? ['clone', 'unserialize'] : ['clone'] as $w) {
            $base = $w === 'clone' ? $v : unserialize(serialize($v));
            for ($i = -1; $i < $n; $i++) {
                $d = $w === 'clone' || $i >= 0 ? clone $base : $base; $m = $c->model;
                if ($i >= 0) { if ($this->map) unset($d[$ks[$i]]); else $d->remove($ks[$i]); unset($m[$i]); $m = array_values($m); }
                for ($j = 0; $j < 2; $j++) {
                    $l = array_column($m, 0); if ($this->map) expect($m, $d->toPairs(), "$w, key $i removed: toPairs()"); else expect($l, $d->values(), "$w, key $i removed: values()");
                    if ($this->tree()) expect(true, $d->debugIsBalanced(), "$w, key $i removed: debugIsBalanced()");
                    foreach ($ks as $q => $k) expect($j || $q !== $i, $this->map ? $d->containsKey($k) : $d->contains($k), "$w, key $i removed: key $q");
                    if ($i < 0) break;
                    if ($this->map) $d[$ks[$i]] = $c->model[$i][1]; else $d->add($ks[$i]);
                    if ($this->sorted) $m = $c->model; else $m[] = $c->model[$i];
                }
            }
        }
    }
    private function lookup(Ctx $c, $k, bool $full = true): void {
        $v = $c->impl; $i = $this->find($c, $k); $s = show($k);
        if (!$this->map) { expect($i !== null, $v->contains($k), "contains($s)"); if ($this->intset && is_int($k)) expect($i, $v->indexOf($k), "indexOf($s)"); return; }
        $x = $i === null ? null : $c->model[$i][1];
        expect($i !== null, $v->containsKey($k), "containsKey($s)");
        if (!$full) { expect($i === null ? 'D' : $x, $v->get($k, 'D'), "get($s, default)"); return; }
        expect($i !== null && $x !== null, isset($v[$k]), "isset [$s]"); expect($i !== null && $x !== null, $v->offsetExists($k), "offsetExists($s)");
        expect($i === null || !$x, empty($v[$k]), "empty [$s]"); expect($i === null || $x === null ? 'D' : $x, $v[$k] ?? 'D', "[$s] ??");
        $e = $i === null ? X('OutOfBoundsException') : R($x);
        $this->chk($e, outcome(static fn() => $v[$k]), "[$s]"); $this->chk($e, outcome(static fn() => $v->offsetGet($k)), "offsetGet($s)"); $this->chk($e, outcome(static fn() => $v->get($k)), "get($s)");
        expect($i === null ? 'D' : $x, $v->get($k, 'D'), "get($s, default)"); expect($i === null ? null : $x, $v->get($k, null), "get($s, null)");
    }
    private function chk(array $exp, array $got, string $what): void {
        if ($exp[0] !== $got[0] || ($exp[0] === 'x' ? $exp[1] !== $got[1] : !same($exp[1], $got[1]))) throw new Violation("$what: expected " . show($exp) . ' got ' . show($got));
    }
    /* fill n keys, remove a pattern, insert m more, re-insert removed ones: complete comparison after each phase */
    public static function patterns(array $job): void {
        foreach ($job['sizes'] as $n) {
            $pats = [];
            for ($i = 0; $i < $n; $i++) $pats["one$i"] = [$i];
            for ($i = 1; $i <= $n; $i++) { $pats["prefix$i"] = range(0, $i - 1); $pats["suffix$i"] = range($n - $i, $n - 1); $pats["rsuffix$i"] = range($n - 1, $n - $i); $pats["rprefix$i"] = range($i - 1, 0); }
            foreach ([2, 3, 5] as $s) for ($o = 0; $o < $s; $o++) { $p = []; for ($i = $o; $i < $n; $i += $s) $p[] = $i; if ($p) $pats["every$s+$o"] = $p; }
            for ($i = 1; $i < $n; $i++) { $pats["pair0_$i"] = [0, $i]; $pats["pairL_$i"] = [$n - 1, $i - 1]; }
            if ($n <= 9) for ($m = 1; $m < 1 << $n; $m++) { $p = []; for ($i = 0; $i < $n; $i++) if ($m >> $i & 1) $p[] = $i; $pats["mask$m"] = $p; }
            foreach ($job['keys'] as $kk) foreach ($pats as $pn => $p) foreach ($job['refill'] as $m) Cases::run([$n, $kk, $pn, $m], function () use ($job, $n, $kk, $p, $m) {
                $S = new KVSys(['cls' => $job['cls'], 'N' => 100000, 'pool' => []]);
                $c = $S->start(['new']); St::$traces++;
                $key = fn($i) => $kk === 'int' ? "i$i" : ($kk === 'str' ? "sk$i" : ($kk === 'coll' ? "A$i" : ($i % 3 === 0 ? "i$i" : ($i % 3 === 1 ? "s$i" : "d$i.5"))));
                for ($i = 0; $i < $n; $i++) $S->step($c, ['put', $key($i)]);
                foreach ($p as $i) $S->step($c, ['del', $key($i)]);
                $S->cfg['pool'] = array_map($key, [...array_slice($p, 0, 6), 0, $n - 1, $n]);
                $S->probe($c, true);
                for ($i = 0; $i < $m; $i++) $S->step($c, ['put', $key($n + $i)]);
                $S->probe($c, true);
                foreach ($p as $i) $S->step($c, ['put', $key($i)]);
                $S->cfg['pool'] = array_map($key, range(0, min(40, $n + $m)));
                $S->probe($c, true);
                St::$transitions += $n + $m + 2 * count($p); St::$distinct++;
            });
        }
        St::sample("fill/remove/refill patterns " . json_encode($job['sizes']));
    }
}
const ODD_V = ['N', 'T', 'F', 'd0', 'd1', 'q', 's', 's1', ['i1'], 'o1'];
function kv_run(array $job): void {
    if ($job['kind'] === 'bfs') Explorer::bfs(new KVSys($job['cfg']), $job['depth'] ?? 1000, $job['maxstates'] ?? PHP_INT_MAX);
    elseif ($job['kind'] === 'dfs') Explorer::dfs(new KVSys($job['cfg']), $job['depth'], $job['shard'] ?? 0, $job['nshards'] ?? 1);
    elseif ($job['kind'] === 'patterns') KVSys::patterns($job);
    else throw new HarnessError($job['kind']);
}
/* constructors: every list of up to 3-4 tokens from the pool, in every way of constructing */
function kv_ctor_jobs(string $cls, array $pool, int $len, string $bound): array {
    $map = str_ends_with($cls, 'Map');
    $ways = $map ? ['gen', 'pairs', 'pairsgen', 'setstate', 'one'] : ['ctor', 'harr', 'gen', 'setstate', 'one'];
    if ($cls === 'SortedIntVectorSet') $ways = ['ctor', 'harr', 'gen', 'one'];
    $jobs = [];
    foreach ($ways as $w) {
        $inits = []; $lists = [[]];
        for ($i = 0; $i < $len; $i++) { $nx = []; foreach ($lists as $l) if (count($l) === $i) foreach ($pool as $t) $nx[] = [...$l, $t]; $lists = [...$lists, ...$nx]; }
        $jobs[] = ['name' => "ctor-$cls-$w", 'kind' => 'ctor', 'cls' => $cls, 'way' => $w, 'pool' => $pool, 'len' => $len, 'weight' => 4, 'bound' => $bound];
    }
    return $jobs;
}
function kv_ctor_run(array $job): void {
    $lists = [[]]; $all = [[]];
    for ($i = 0; $i < $job['len']; $i++) { $nx = []; foreach ($lists as $l) foreach ($job['pool'] as $t) $nx[] = [...$l, $t]; $lists = $nx; $all = [...$all, ...$nx]; }
    foreach ($all as $l) Cases::run($l, function () use ($job, $l) {
        $S = new KVSys(['cls' => $job['cls'], 'pool' => $job['pool']]);
        $c = $S->start([$job['way'], $l]); St::$traces++; St::$transitions++; St::$distinct++;
        $S->probe($c, true);
        foreach (array_slice($job['pool'], 0, 3) as $t) { $S->step($c, ['put', $t]); $S->step($c, ['del', $t]); St::$transitions += 2; }
        $S->probe($c, false);
    });
    St::sample([$job['way'], $l]);
}
/* build from n keys in several orders and every way of constructing, then remove each index, pop from both ends, insert in each gap */
function kv_build_run(array $job): void {
    $cls = $job['cls']; $map = str_ends_with($cls, 'Map'); $int = $cls === 'SortedIntVectorSet';
    for ($n = $job['from']; $n <= $job['to']; $n++) foreach ($job['orders'] as $ord) foreach ($job['ways'] as $way) {
        $ix = $n ? range(0, $n - 1) : [];
        if ($ord === 'desc') $ix = array_reverse($ix);
        if ($ord === 'zig') { $a = []; for ($i = 0, $j = $n - 1; $i <= $j; $i++, $j--) { $a[] = $i; if ($j !== $i) $a[] = $j; } $ix = $a; }
        if ($ord === 'dup') $ix = [...$ix, ...$ix];
        if ($ord === 'rot' && $n) $ix = [...array_slice($ix, intdiv($n, 2)), ...array_slice($ix, 0, intdiv($n, 2))];
        if ($ord === 'swapend' && $n > 1) [$ix[$n - 2], $ix[$n - 1]] = [$ix[$n - 1], $ix[$n - 2]];
        if ($ord === 'stride') { usort($ix, fn($a, $b) => [($a * 7) % max(1, $n), $a] <=> [($b * 7) % max(1, $n), $b]); }
        $toks = array_map(fn($i) => 'i' . (2 * $i), $ix);
        if ($job['mixed'] ?? false) $toks = array_map(fn($i) => $i % 2 ? sprintf('ss%03d', $i) : 'i' . (2 * $i), $ix);
        if ($ord === 'dup' && $map && $way === 'ctor') continue;
        Cases::run([$n, $ord, $way], function () use ($job, $cls, $n, $toks, $way) {
            $mk = function () use ($cls, $way, $toks) { $S = new KVSys(['cls' => $cls, 'N' => 100000, 'pool' => array_slice($toks, 0, 3)]); return [$S, $S->start([$way, $toks])]; };
            [$S, $c] = $mk(); St::$traces++; St::$distinct++; $S->probe($c, true); St::$transitions++;
            for ($i = 0; $i < $n && $i < 40; $i++) { [$S, $c] = $mk(); St::$traces++; $S->step($c, ['del', $toks[$i]]); St::$transitions++; $S->probe($c, false); $S->step($c, ['put', $toks[$i]]); $S->probe($c, false); }
            for ($i = 0; $i <= $n && $i < 40; $i++) { [$S, $c] = $mk(); St::$traces++; $S->step($c, ['put', 'i' . (2 * $i - 1)]); St::$transitions++; $S->probe($c, false); }
            [$S, $c] = $mk(); for ($i = 0; $i <= $n; $i++) { $S->step($c, ['pop']); $S->probe($c, false); St::$transitions++; }
            if ($cls !== 'SortedIntVectorSet') { [$S, $c] = $mk(); for ($i = 0; $i <= $n; $i++) { $S->step($c, ['popFront']); $S->probe($c, false); St::$transitions++; } }
            [$S, $c] = $mk(); foreach ($toks as $t) { $S->step($c, ['del', $t]); $S->probe($c, false); St::$transitions++; }
        });
    }
    St::sample(['build', $cls, $job['to']]);
}
