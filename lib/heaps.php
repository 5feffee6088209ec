<?php
require_once __DIR__ . '/model.php';
/* Heaps against a multiset model. State key: the internal layout as exposed by values(), plus capacity history through the path. */
class HeapSys extends Sys {
    public array $cfg; public string $fq; public int $sgn;
    public function __construct(array $cfg) { $this->cfg = $cfg + ['inits' => [['new']]]; $this->fq = 'Teds\\' . $cfg['cls']; $this->sgn = $cfg['cls'] === 'StrictMinHeap' ? 1 : -1; }
    public function init(): array { return $this->cfg['inits']; }
    public function start(array $op): Ctx {
        $c = new Ctx; $q = $this->fq; $c->model = $c->vs($op[1] ?? []); $vals = $c->model;
        switch ($op[0]) {
            case 'new': $c->impl = new $q; break;
            case 'ctor': $c->impl = new $q($vals); break;
            case 'harr': $a = ['x' => 0]; foreach ($vals as $i => $v) $a["k$i"] = $v; unset($a['x']); $c->impl = new $q($a); break;
            case 'gen': $c->impl = new $q(count($vals) % 2 ? new UniIt(array_values($vals), false) : (static function () use ($vals) { foreach ($vals as $v) yield 'same' => $v; })()); break;
            case 'setstate': $c->impl = $q::__set_state($vals); break;
            case 'unser': $c->impl = unserialize(serialize(new $q($vals))); break;
            case 'clone': $c->impl = clone new $q($vals); break;
            case 'one': $c->impl = new $q; foreach ($vals as $v) $c->impl->add($v); break;
            default: throw new HarnessError($op[0]);
        }
        return $c;
    }
    public function ops(Ctx $c): iterable {
        if (count($c->model) < $this->cfg['N']) foreach ($this->cfg['pool'] as $t) yield ['add', $t];
        yield ['extract'];
        if (!($this->cfg['lean'] ?? false)) { yield ['next']; yield ['clear']; yield ['step']; yield ['rewind']; }
    }
    /* removes $x from the model if it is a valid top */
    private function takeTop(Ctx $c, $x, string $what, bool $remove): void {
        $hit = null;
        foreach ($c->model as $i => $m) { if (mcmp($m, $x) * $this->sgn < 0) throw new Violation("$what gave " . show($x) . ' although ' . show($m) . ' comes before it'); if ($hit === null && same($m, $x)) $hit = $i; }
        if ($hit === null) throw new Violation("$what gave " . show($x) . ' which is not in the heap');
        if ($remove) array_splice($c->model, $hit, 1);
    }
    public function step(Ctx $c, array $op): void {
        $v = $c->impl; $n = count($c->model);
        switch ($op[0]) {
            case 'add': $x = $c->v($op[1]); expect_outcome(R(), outcome(static fn() => $v->add($x)), 'add'); $c->model[] = $x; break;
            case 'extract':
                $o = outcome(static fn() => $v->extract());
                if (!$n) { expect_outcome(X('UnderflowException'), $o, 'extract on empty'); break; }
                if ($o[0] !== 'r') throw new Violation('extract threw ' . $o[1]);
                $this->takeTop($c, $o[1], 'extract()', true); break;
            case 'next': // removes the top
                $t = $n ? $v->top() : null; $o = outcome(static fn() => $v->next());
                if (!$n) { if ($o[0] === 'x') expect_outcome(X('UnderflowException'), $o, 'next on empty'); break; }
                expect_outcome(R(), $o, 'next'); $this->takeTop($c, $t, 'next()', true); break;
            case 'step': // one step of a foreach-like loop
                expect($n > 0, $v->valid(), 'valid()');
                if ($n) { $x = $v->current(); $v->key(); $this->takeTop($c, $x, 'current()', true); $v->next(); }
                break;
            case 'rewind': expect_outcome(R(), outcome(static fn() => $v->rewind()), 'rewind'); break;
            case 'clear': expect_outcome(R(), outcome(static fn() => $v->clear()), 'clear'); $c->model = []; break;
            default: throw new HarnessError($op[0]);
        }
        St::outcome($op[0] . ($n ? '' : ' empty'));
        expect(count($c->model), $v->count(), json_encode($op) . ': count()');
    }
    public function tail(Ctx $c): void { // nine more elements, then drain: storage smaller than reported, or a broken layout, shows up here
        $v = $c->impl; foreach ([5, 3, 8, 1, 9, 2, 7, 4, 6] as $i) { $v->add($i); $c->model[] = $i; }
        $exp = $c->model; usort($exp, fn($a, $b) => mcmp($a, $b) * $this->sgn); $got = [];
        while (!$v->isEmpty()) $got[] = $v->extract();
        foreach ($got as $i => $x) if (!array_key_exists($i, $exp) || mcmp($exp[$i], $x) !== 0) throw new Violation('drained ' . show($got) . ' expected ' . show($exp));
        expect(count($exp), count($got), 'number of elements drained');
    }
    public function key(Ctx $c): string { return repr($c->impl->values()); }
    public static function bag(array $a): array { $r = array_map('repr', $a); sort($r); return $r; }
    public function probe(Ctx $c, bool $full): void {
        $v = $c->impl; $n = count($c->model);
        expect(self::bag($c->model), self::bag($v->values()), 'multiset of values()');
        $o = outcome(static fn() => $v->top());
        if (!$n) expect_outcome(X('UnderflowException'), $o, 'top on empty'); else { if ($o[0] !== 'r') throw new Violation('top threw ' . $o[1]); $this->takeTop($c, $o[1], 'top()', false); }
        expect($n > 0, $v->valid(), 'valid()'); expect($n === 0, $v->isEmpty(), 'isEmpty()');
        if (!$full) return;
        expect($n, count($v), 'count($v)');
        foreach ([...$this->cfg['pool'] ?? [], 'i99', 's', 'N'] as $t) { $x = $c->v($t); if (is_float($x) && is_nan($x)) continue; $e = false; foreach ($c->model as $m) if (meq($m, $x)) $e = true; expect($e, $v->contains($x), 'contains ' . show($x)); }
        // draining (clones): extract and foreach give the same sorted sequence
        $sorted = $c->model; usort($sorted, fn($a, $b) => mcmp($a, $b) * $this->sgn);
        $d = clone $v; $out = []; while (!$d->isEmpty()) { $out[] = $d->extract(); if (count($out) > $n) throw new Violation('drain yields too many'); }
        $this->sortedSame($sorted, $out, 'draining with extract()');
        expect_outcome(X('UnderflowException'), outcome(static fn() => $d->extract()), 'extract after draining'); $d->add(5); expect(5, $d->top(), 'top after draining and adding');
        $d = clone $v; $out = []; foreach ($d as $x) { $out[] = $x; if (count($out) > $n) throw new Violation('foreach yields too many'); }
        $this->sortedSame($sorted, $out, 'foreach'); expect(0, $d->count(), 'count after foreach');
        expect($n, $v->count(), 'count after draining clones');
    }
    private function sortedSame(array $exp, array $got, string $what): void {
        if (count($exp) !== count($got)) throw new Violation("$what: " . count($got) . ' elements, expected ' . count($exp));
        foreach ($got as $i => $x) if (mcmp($x, $exp[$i]) !== 0) throw new Violation("$what: element $i is " . show($x) . ', expected ' . show($exp[$i]));
        expect(self::bag($exp), self::bag($got), "$what: multiset");
    }
}
