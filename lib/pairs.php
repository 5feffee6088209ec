<?php
require_once __DIR__ . '/model.php';
/* MutableIterable against a list of [key, value] pairs. Search state: (size, capacity); contents are fresh values. */
class MISys extends Sys {
    public array $cfg;
    public function __construct(array $cfg) { $this->cfg = $cfg + ['inits' => [['new']], 'pool' => null]; }
    public function init(): array { return $this->cfg['inits']; }
    public function fresh(Ctx $c): array { $n = $c->fresh++; return [match ($n % 4) { 0 => "k$n", 1 => $n, 2 => [$n], 3 => $n + 0.5 }, match ($n % 3) { 0 => "v$n", 1 => -$n, 2 => ['x' => $n] }]; }
    public function start(array $op): Ctx {
        $c = new Ctx; $p = [];
        foreach ($op[1] ?? [] as $t) $p[] = is_array($t) ? [$c->v($t[0]), $c->v($t[1])] : $this->fresh($c);
        for ($i = 0; $i < ($op[2] ?? 0); $i++) $p[] = $this->fresh($c);
        switch ($op[0]) {
            case 'new': $c->impl = new Teds\MutableIterable(); break;
            case 'pairs': $c->impl = Teds\MutableIterable::fromPairs($p); break;
            case 'pairsgen': $c->impl = Teds\MutableIterable::fromPairs(count($p) % 2 ? new UniIt(array_values($p), false) : (static function () use ($p) { foreach ($p as $x) yield $x; })()); break;
            case 'setstate': $c->impl = Teds\MutableIterable::__set_state($p); break;
            case 'gen': $c->impl = new Teds\MutableIterable((static function () use ($p) { foreach ($p as [$k, $v]) yield $k => $v; })()); break;
            case 'arr': $a = []; foreach ($p as $i => [$k, $v]) $a["a$i"] = $v; $p = []; foreach ($a as $k => $v) $p[] = [$k, $v]; $c->impl = new Teds\MutableIterable($a); break;
            case 'unser': $c->impl = unserialize(serialize(Teds\MutableIterable::fromPairs($p))); break;
            case 'clone': $c->impl = clone Teds\MutableIterable::fromPairs($p); break;
            case 'one': $c->impl = new Teds\MutableIterable(); foreach ($p as [$k, $v]) $c->impl->push($k, $v); break;
        }
        $c->model = $p;
        return $c;
    }
    public function ops(Ctx $c): iterable {
        $n = count($c->model); $N = $this->cfg['N'];
        if ($this->cfg['pool']) { if ($n < $N) foreach ($this->cfg['pool'] as $t) yield ['push', $t[0], $t[1]]; }
        elseif ($n < $N) yield ['push'];
        yield ['pop']; yield ['clear']; yield ['shrinkToFit'];
        for ($i = 0; $i <= $N; $i++) yield ['setSize', $i];
        yield ['setSize', -1];
        foreach (['setKeyAt', 'setValueAt'] as $f) { for ($i = 0; $i < $n; $i++) yield [$f, $i]; foreach ([-1, $n, PHP_INT_MAX, PHP_INT_MIN, 4294967296] as $i) yield [$f, $i]; }
    }
    public function step(Ctx $c, array $op): void {
        $v = $c->impl; $n = count($c->model); $exp = R();
        switch ($op[0]) {
            case 'push': [$k, $x] = isset($op[1]) ? [$c->v($op[1]), $c->v($op[2])] : $this->fresh($c); $got = outcome(static fn() => $v->push($k, $x)); $c->model[] = [$k, $x]; break;
            case 'pop': $got = outcome(static fn() => $v->pop()); $exp = $n ? R(array_pop($c->model)) : X('UnderflowException'); break;
            case 'clear': case 'shrinkToFit': $f = $op[0]; $got = outcome(static fn() => $v->$f()); if ($f === 'clear') $c->model = []; break;
            case 'setSize': $s = $op[1]; $got = outcome(static fn() => $v->setSize($s)); if ($s < 0) $exp = X('ValueError'); else { $c->model = array_slice($c->model, 0, $s); while (count($c->model) < $s) $c->model[] = [null, null]; } break;
            case 'setKeyAt': case 'setValueAt':
                $f = $op[0]; $i = $op[1]; $x = $this->fresh($c)[0]; $got = outcome(static fn() => $v->$f($i, $x));
                if ($i < 0 || $i >= $n) $exp = X('OutOfBoundsException'); else $c->model[$i][$f === 'setKeyAt' ? 0 : 1] = $x; break;
            default: throw new HarnessError($op[0]);
        }
        if ($exp[0] !== $got[0] || ($exp[0] === 'x' ? $exp[1] !== $got[1] : !same($exp[1], $got[1]))) throw new Violation(json_encode($op) . ': expected ' . show($exp) . ' got ' . show($got));
        St::outcome($op[0] . ' ' . ($got[0] === 'x' ? $got[1] : get_debug_type($got[1])));
        expect(count($c->model), $v->count(), json_encode($op) . ': count()');
        $cap = $v->capacity(); $c->x['realloc'] = count($c->model) < $n || $cap !== ($c->x['cap'] ?? -1) || in_array($op[0], ['setSize', 'clear', 'shrinkToFit'], true); $c->x['cap'] = $cap;
    }
    public function key(Ctx $c): string { return $this->cfg['pool'] ? repr($c->model) . $c->impl->capacity() : count($c->model) . '/' . $c->impl->capacity(); }
    public function tail(Ctx $c): void { // fill the reported capacity, compare, drain
        $v = $c->impl; $cap = $v->capacity(); $n = count($c->model);
        if ($cap - $n > 600 || !($c->x['realloc'] ?? true)) return;
        for ($i = $n; $i <= $cap; $i++) { $v->push("k$i", $i); $c->model[] = ["k$i", $i]; }
        expect($c->model, $v->toPairs(), 'toPairs() after filling the capacity');
        if ($cap > 20) return;
        while ($c->model) { $e = array_pop($c->model); expect($e, $v->pop(), 'pop() while draining'); if (count($c->model) === 3) expect($c->model, $v->toPairs(), 'toPairs() while draining'); }
        $v->push(1, 2); expect([[1, 2]], $v->toPairs(), 'content after draining and pushing');
    }
    public function probe(Ctx $c, bool $full): void {
        self::check($c, $c->impl, $c->model, $full);
        if ($c->impl->capacity() < $c->impl->count()) throw new Violation('capacity() < count()');
        if ($full && count($c->model) <= 40) {
            $d = clone $c->impl; $m = $c->model; $d->push('ck', 'cv'); $m[] = ['ck', 'cv']; expect($m, $d->toPairs(), 'clone, push'); $d->setKeyAt(0, 'ck2'); $m[0][0] = 'ck2'; expect(array_pop($m), $d->pop(), 'clone, pop'); expect($m, $d->toPairs(), 'clone, pop');
            $k = count($m) + 2; $d->setSize($k); $m[] = [null, null]; $m[] = [null, null]; expect($m, $d->toPairs(), 'clone, setSize'); $d->setSize(1); expect([$m[0]], $d->toPairs(), 'clone, setSize(1)'); unset($d); expect($c->model, $c->impl->toPairs(), 'after changing a clone');
        }
    }
    /* shared by the other pair-list classes */
    public static function check(Ctx $c, $v, array $m, bool $full): void {
        $n = count($m); $ks = array_column($m, 0); $vs = array_column($m, 1);
        expect($n, $v->count(), 'count()'); expect($m, $v->toPairs(), 'toPairs()');
        if (!$full) return;
        expect($n, count($v), 'count($v)'); expect($n === 0, $v->isEmpty(), 'isEmpty()'); expect($ks, $v->keys(), 'keys()'); expect($vs, $v->values(), 'values()');
        $i = 0;
        foreach ($v as $k => $x) { if ($i >= $n) throw new Violation('foreach yields too many'); expect($ks[$i], $k, "foreach key $i"); expect($vs[$i], $x, "foreach value $i"); $i++; }
        expect($n, $i, 'foreach steps');
        for ($i = 0; $i < $n; $i++) { expect($ks[$i], $v->keyAt($i), "keyAt($i)"); expect($vs[$i], $v->valueAt($i), "valueAt($i)"); }
        foreach ([-1, $n, $n + 1, PHP_INT_MAX, PHP_INT_MIN, 4294967296] as $o) { expect_outcome(X('OutOfBoundsException'), outcome(static fn() => $v->keyAt($o)), "keyAt($o)"); expect_outcome(X('OutOfBoundsException'), outcome(static fn() => $v->valueAt($o)), "valueAt($o)"); }
        foreach ([...$ks, ...$vs, 'nope', null, 0, '0', 0.0, false, 'k', 1, '1', []] as $x) {
            $ik = $iv = null;
            for ($i = $n - 1; $i >= 0; $i--) { if ($ks[$i] === $x) $ik = $i; if ($vs[$i] === $x) $iv = $i; }
            if (is_float($x) && is_nan($x)) continue;
            $s = show($x);
            expect($ik, $v->indexOfKey($x), "indexOfKey($s)"); expect($iv, $v->indexOfValue($x), "indexOfValue($s)");
            expect($ik !== null, $v->containsKey($x), "containsKey($s)"); expect($iv !== null, $v->containsValue($x), "containsValue($s)"); expect($iv !== null, $v->contains($x), "contains($s)");
        }
        expect($m, $v->toPairs(), 'toPairs() after reading');
    }
}
