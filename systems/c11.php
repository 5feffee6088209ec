<?php
require_once __DIR__ . '/../lib/scale.php';
require_once __DIR__ . '/../lib/uni.php';
/* Immutable collections: content from every input; no call changes what any reader or open iterator sees. */
final class ImmSys extends Sys {
    public function __construct(public array $cfg) {}
    public function init(): array { $r = []; foreach ($this->cfg['contents'] as $e) foreach ($this->cfg['ways'] as $w) $r[] = ['new', $this->cfg['cls'], $e, $w]; return $r; }
    public function start(array $op): Ctx {
        [, $cls, $e, $w] = $op; $c = new Ctx; $ent = $c->vs($e); $c->x = ['cls' => $cls, 'init' => $op, 'it' => [], 'pos' => []];
        $c->impl = Uni::make($cls, $ent, $w); $c->model = Uni::model($cls, $ent); return $c;
    }
    public function ops(Ctx $c): iterable {
        $cls = $c->x['cls']; $n = count($c->model);
        $v = match ($cls) { 'ImmutableSortedIntSet' => ['i77', 'M'], 'ImmutableSortedStringSet' => ['snew', 's'], default => ['i77', 'N', 'o5'] };
        yield ['clear']; yield ['reconstruct']; yield ['reconstruct0']; yield ['unser']; yield ['prop']; yield ['unsetprop']; yield ['refforeach']; yield ['views']; yield ['gc']; yield ['clonechange']; yield ['sortcopy'];
        if (Uni::kind($cls) === 'set') { foreach ($v as $t) { yield ['m', 'add', $t]; yield ['m', 'remove', $t]; } foreach ($c->x['init'][2] as $t) { yield ['m', 'add', $t]; yield ['m', 'remove', $t]; } }
        if ($cls === 'ImmutableSequence') {
            foreach (['pop', 'shift', 'popFront'] as $f) yield ['m', $f];
            foreach (['push', 'unshift', 'pushFront'] as $f) { yield ['m', $f]; yield ['m', $f, $v[0]]; yield ['m', $f, $v[0], $v[1]]; }
            foreach ([-1, 0, $n - 1, $n] as $i) { yield ['m', 'set', "i$i", $v[0]]; yield ['m', 'insert', "i$i", $v[0]]; yield ['m', 'offsetSet', "i$i", $v[0]]; yield ['m', 'offsetUnset', "i$i"]; yield ['arr', 'set', $i]; yield ['arr', 'unset', $i]; yield ['arr', 'ref', $i]; yield ['arr', 'opset', $i]; yield ['arr', 'deep', $i]; yield ['arr', 'coalesce', $i]; }
            yield ['arr', 'append', 0]; yield ['m', 'offsetSet', 'N', $v[0]];
            yield ['map']; yield ['filter']; yield ['filter0']; for ($j = 0; $j < $n; $j++) { yield ['mapthrow', $j]; yield ['filterthrow', $j]; }
        } else foreach (['set', 'unset', 'append'] as $k) yield ['noarr', $k];
        if (count($c->x['it']) < $this->cfg['iters']) yield ['iter'];
        foreach ($c->x['it'] as $i => $_) foreach (['rewind', 'next', 'read'] as $m) yield ['it', $i, $m];
    }
    public function step(Ctx $c, array $op): void {
        $o = $c->impl; $m = $c->model; $n = count($m); $cls = $c->x['cls']; St::outcome("$cls {$op[0]}" . ($op[0] === 'm' || $op[0] === 'arr' ? " {$op[1]}" : '')); $what = json_encode($op);
        $un = static function (callable $f, string $alt = '') use ($what) { $g = outcome($f); if ($g[0] !== 'x' || !in_array($g[1], ['Teds\UnsupportedOperationException', ...explode('|', $alt)])) throw new Violation("$what on an immutable collection: expected UnsupportedOperationException, got " . show($g)); };
        switch ($op[0]) {
            case 'clear': $un(static fn() => $o->clear()); break;
            case 'm': $f = $op[1]; $a = $c->vs(array_slice($op, 2)); $un(static fn() => $o->$f(...$a)); break;
            case 'arr': $i = $op[2]; $in = $i >= 0 && $i < $n;
                switch ($op[1]) {
                    case 'set': $un(static function () use ($o, $i) { $o[$i] = 5; }); break;
                    case 'unset': $un(static function () use ($o, $i) { unset($o[$i]); }); break;
                    case 'append': $un(static function () use ($o) { $o[] = 5; }); break;
                    case 'ref': outcome(static function () use ($o, $i) { $r = &$o[$i]; $r = 'changed'; }); break;
                    case 'deep': outcome(static function () use ($o, $i) { $o[$i]['x'] = 'changed'; }); break;
                    case 'opset': outcome(static function () use ($o, $i) { $o[$i] .= 'changed'; }); break;
                    case 'coalesce': outcome(static function () use ($o, $i) { $o[$i] ??= 'changed'; }); break;
                } break;
            case 'noarr': $g = outcome(match ($op[1]) { 'set' => static function () use ($o) { $o[0] = 1; }, 'append' => static function () use ($o) { $o[] = 1; }, 'unset' => static function () use ($o) { unset($o[0]); } }); if ($g[0] !== 'x') throw new Violation("$what: array syntax was accepted"); break;
            case 'reconstruct': $e = Uni::sample($cls, 4, 3); $g = outcome(static fn() => $o->__construct(Uni::pairy($cls) ? ['a' => 1] : $e)); if ($g[0] !== 'x') throw new Violation("$what: a second __construct was accepted"); break;
            case 'reconstruct0': $g = outcome(static fn() => $o->__construct([])); if ($g[0] !== 'x') throw new Violation("$what: a second __construct was accepted"); break;
            case 'unser': $d = Uni::make($cls, Uni::sample($cls, 3, 2))->__serialize(); foreach ([$d, [], $o->__serialize()] as $p) { $g = outcome(static fn() => $o->__unserialize($p)); if ($g[0] !== 'x') throw new Violation("$what: __unserialize on an existing object was accepted"); } break;
            case 'prop': $g = outcome(static function () use ($o) { $o->x = 1; }); if ($g[0] !== 'x') throw new Violation("$what: accepted a dynamic property"); break;
            case 'unsetprop': outcome(static function () use ($o) { unset($o->x); }); break;
            case 'refforeach': $g = outcome(static function () use ($o) { foreach ($o as &$x) $x = 1; }); if ($g[0] !== 'x' && $n) throw new Violation("$what: foreach by reference was accepted"); break;
            case 'views': Uni::views($o, $m); break;
            case 'gc': gc_collect_cycles(); break;
            case 'clonechange': if ($cls !== 'CachedIterable') { $d = clone $o; Uni::expectContent($d, $m, 'clone'); unset($d); } break;
            case 'sortcopy': $a = $o->values(); rsort($a); $a[] = 1; unset($a[0]); break;
            case 'map': $r = $o->map(static fn($x) => [$x]); expect('Teds\ImmutableSequence', get_class($r), 'class of map()'); expect(array_map(fn($x) => [$x], $m), $r->toArray(), 'map()'); break;
            case 'filter': $k = 0; $r = $o->filter(static function ($x) use (&$k) { return $k++ % 2; }); $w = []; foreach ($m as $i => $x) if ($i % 2) $w[] = $x; expect($w, $r->toArray(), 'filter()'); break;
            case 'filter0': $r = $o->filter(); expect(array_values(array_filter($m)), $r->toArray(), 'filter() without callback'); break;
            case 'mapthrow': case 'filterthrow': $f = substr($op[0], 0, -5); $k = 0; $cb = static function ($x) use (&$k, $op) { if ($k++ === $op[1]) throw new Boom; return $x; }; $g = outcome(static fn() => $o->$f($cb)); expect_outcome(X('Boom'), $g, $what); expect($op[1] + 1, $k, "$what: calls"); break;
            case 'iter': $c->x['it'][] = $o->getIterator(); $c->x['pos'][] = 0; break;
            case 'it': $it = $c->x['it'][$op[1]]; $p = &$c->x['pos'][$op[1]];
                if ($op[2] === 'rewind') { $it->rewind(); $p = 0; } elseif ($op[2] === 'next') { $it->next(); $p = min($n + 1, $p + 1); }
                elseif ($p >= $n) { outcome(static fn() => $it->current()); outcome(static fn() => $it->key()); }
                break;
        }
        foreach ($c->x['it'] as $i => $it) { $p = $c->x['pos'][$i]; expect($p < $n, $it->valid(), "$what: iterator $i at $p valid()"); if ($p < $n) { expect(Uni::pairy($cls) ? $m[$p][1] : $m[$p], $it->current(), "$what: iterator $i at $p current()"); if (Uni::pairy($cls)) expect($m[$p][0], $it->key(), "$what: iterator $i key()"); elseif (Uni::kind($cls) === 'seq') expect($p, $it->key(), "$what: iterator $i key()"); } }
        Uni::expectContent($o, $m, "$what: content afterwards"); expect($n, count($o), "$what: count afterwards");
    }
    public function probe(Ctx $c, bool $full): void { if ($full) Uni::views($c->impl, $c->model); }
    public function key(Ctx $c): string { return json_encode([$c->x['init'], $c->x['pos']]); }
}
/* content of sets over boundary values, with every boundary value searched */
function c11_set(array $job): void {
    $c = $job['cls']; $q = "Teds\\$c"; $al = (new Ctx)->vs($job['alpha']); $n = count($al);
    $probe = static function ($o, array $m) use ($al, $c) {
        expect($m, $o->values(), 'values()'); expect(count($m), count($o), 'count'); expect($m, [...(static function () use ($o) { foreach ($o as $x) yield $x; })()], 'foreach');
        foreach ($al as $x) { $i = array_search($x, $m, true); expect($i !== false, $o->contains($x), 'contains ' . show($x)); expect($i === false ? null : $i, $o->indexOf($x), 'indexOf ' . show($x)); }
        foreach ($m as $i => $x) expect($x, $o->get($i), "get($i)");
        expect_outcome($m ? R($m[0]) : X('UnderflowException'), outcome(static fn() => $o->first()), 'first()'); expect_outcome($m ? R($m[count($m) - 1]) : X('UnderflowException'), outcome(static fn() => $o->last()), 'last()');
    };
    $rec = static function (array $idx, int $left) use (&$rec, $al, $c, $n, $job, $probe, $q) {
        if (count($idx) === 1 && $idx[0] % $job['nshards'] !== $job['shard']) return;
        Cases::run($idx, static function () use ($idx, $al, $c, $probe, $q) {
            $e = array_map(static fn($i) => $al[$i], $idx); $m = Uni::model($c, $e);
            $probe(new $q($e), $m); $probe(new $q((static function () use ($e) { foreach ($e as $x) yield 0 => is_string($x) ? strrev(strrev($x)) : $x; })()), $m); $probe($q::__set_state($e), $m);
            St::$states++; St::$transitions += 3; St::$traces += 3; if (St::$states % 501 === 7) St::sample($idx);
        });
        if ($left) for ($i = 0; $i < $n; $i++) $rec([...$idx, $i], $left - 1);
    };
    $rec([], $job['len']);
}
/* sizes: n elements, every element and every gap searched */
function c11_sizes(array $job): void {
    $c = $job['cls']; $q = "Teds\\$c";
    foreach ($job['sizes'] as $n) foreach ($job['gens'] as $g) Cases::run([$n, $g], static function () use ($n, $g, $q, $c) {
        $f = match ($g) { 'step2' => static fn($i) => $i * 2, 'neg' => static fn($i) => ($i - 20) * 7, 'wide' => static fn($i) => ($i - 5) * 3000000000, 'mid' => static fn($i) => $i * 1000 - 20000, 'str' => static fn($i) => sprintf('k%03d', $i * 2), 'len' => static fn($i) => str_repeat('a', $i * 2), 'bin' => static fn($i) => chr($i * 2) . "\0" . str_repeat("\xff", $i * 9 % 300) };
        $m = []; for ($i = 0; $i < $n; $i++) $m[] = $f($i); $in = $m; if ($n > 1) { $in = array_reverse($in); $in[] = $in[0]; [$in[0], $in[intdiv($n, 2)]] = [$in[intdiv($n, 2)], $in[0]]; }
        foreach ([new $q($in), unserialize(serialize(new $q($in))), $q::__set_state($in), clone new $q($m)] as $o) {
            expect($m, $o->values(), "values of $n"); expect($n, count($o), 'count'); $k = 0; foreach ($o as $x) expect($m[$k++], $x, 'foreach'); expect($n, $k, 'steps');
            foreach ($m as $i => $x) { expect($i, $o->indexOf($x), 'indexOf'); expect(true, $o->contains($x), 'contains'); expect($x, $o->get($i), 'get'); $y = is_int($x) ? $x + 1 : $x . "\0"; expect(false, $o->contains($y), 'contains gap'); expect(null, $o->indexOf($y), 'indexOf gap'); $y = is_int($x) ? $x - 1 : substr($x, 0, -1) . '!'; if (!in_array($y, $m, true)) { expect(false, $o->contains($y), 'contains gap below'); expect(null, $o->indexOf($y), 'indexOf gap below'); } }
            St::$transitions += 1; St::$traces++;
        }
        St::$states++;
    });
}
function c11_empty(array $job): void {
    $x = new Ctx; $pool = ['N', 'F', 'T', 'i0', 'i-1', 'i5', 'd0', 'd1.5', 's', 's0', 'sabc', [], ['i1'], 'o1', 'q', 'r'];
    $U = 'Teds\UnsupportedOperationException';
    foreach (['EmptySequence', 'EmptySet', 'EmptyMap'] as $cls) {
        $o = ("Teds\\$cls")::INSTANCE;
        $inv = static function (string $w) use ($o, $cls) { expect(0, count($o), "$w: count"); expect(true, $o->isEmpty(), "$w: isEmpty"); expect([], $o->values(), "$w: values"); expect([], $o->toArray(), "$w: toArray"); foreach ($o as $_) throw new Violation("$w: foreach yields an element"); expect('[]', json_encode($o), "$w: json"); expect(false, $o->valid(), "$w: valid"); if ($cls === 'EmptyMap') expect([], $o->keys(), "$w: keys"); expect($o, constant("Teds\\$cls::INSTANCE"), "$w: identity"); expect($o, unserialize(serialize($o)), "$w: unserialize"); };
        $ops = [['rewind', [], 'r', null], ['next', [], 'any', null], ['clear', [], 'r', null], ['count', [], 'r', 0]];
        foreach (['current', 'key'] as $f) $ops[] = [$f, [], 'x', 'OutOfBoundsException'];
        if ($cls === 'EmptySequence') {
            foreach (['pop', 'shift', 'popFront', 'first', 'last'] as $f) $ops[] = [$f, [], 'x', in_array($f, ['first', 'last']) ? '*' : "$U|UnderflowException"];
            foreach (['push', 'unshift', 'pushFront'] as $f) { $ops[] = [$f, [], 'x', $U]; foreach ($pool as $t) { $ops[] = [$f, [$t], 'x', $U]; $ops[] = [$f, [$t, 'i1'], 'x', $U]; } }
            foreach ([-1, 0, 1, PHP_INT_MAX] as $i) { $ops[] = ['get', ["i$i"], 'x', 'OutOfBoundsException']; foreach ($pool as $t) { $ops[] = ['set', ["i$i", $t], 'x', $U]; $ops[] = ['insert', ["i$i", $t], 'x', $U]; } }
            foreach ($pool as $t) { $ops[] = ['offsetGet', [$t], 'x', 'OutOfBoundsException|TypeError']; $ops[] = ['aget', [$t], 'x', 'OutOfBoundsException|TypeError']; $ops[] = ['isset', [$t], 'falsex', 'TypeError']; $ops[] = ['offsetExists', [$t], 'falsex', 'TypeError']; $ops[] = ['containsKey', [$t], 'r', false]; $ops[] = ['contains', [$t], 'r', false]; $ops[] = ['indexOf', [$t], 'r', null]; $ops[] = ['offsetSet', [$t, 'i1'], 'x', $U]; $ops[] = ['offsetUnset', [$t], 'x', $U]; $ops[] = ['aset', [$t], 'x', $U]; $ops[] = ['aunset', [$t], 'x', $U]; }
            $ops[] = ['append', [], 'x', $U];
        } elseif ($cls === 'EmptySet') foreach ($pool as $t) { $ops[] = ['add', [$t], 'x', $U]; $ops[] = ['remove', [$t], 'r', false]; $ops[] = ['contains', [$t], 'r', false]; }
        else { foreach ($pool as $t) { $ops[] = ['get', [$t], 'x', 'OutOfBoundsException']; foreach (['i7', 'N', 'o1'] as $d) $ops[] = ['get', [$t, $d], 'rv', $d]; $ops[] = ['offsetGet', [$t], 'x', 'OutOfBoundsException']; $ops[] = ['aget', [$t], 'x', 'OutOfBoundsException']; $ops[] = ['isset', [$t], 'r', false]; $ops[] = ['offsetExists', [$t], 'r', false]; $ops[] = ['containsKey', [$t], 'r', false]; $ops[] = ['contains', [$t], 'r', false]; $ops[] = ['offsetSet', [$t, 'i1'], 'x', $U]; $ops[] = ['aset', [$t], 'x', $U]; $ops[] = ['offsetUnset', [$t], 'r', null]; $ops[] = ['aunset', [$t], 'r', null]; } $ops[] = ['append', [], 'x', '*']; }
        $run = static function (array $op) use ($o, $x) {
            [$f, $a, $k, $w] = $op; $a = $x->vs($a);
            $g = outcome(match ($f) { 'aget' => static fn() => $o[$a[0]], 'isset' => static fn() => isset($o[$a[0]]), 'aset' => static function () use ($o, $a) { $o[$a[0]] = 1; }, 'aunset' => static function () use ($o, $a) { unset($o[$a[0]]); }, 'append' => static function () use ($o) { $o[] = 1; }, default => static fn() => $o->$f(...$a) });
            $s = json_encode($op);
            $g = array_slice($g, 0, 2);
            if ($k === 'r') expect_outcome(R($w), $g, $s); elseif ($k === 'rv') expect_outcome(R($x->v($w)), $g, $s);
            elseif ($k === 'x') { if ($g[0] !== 'x' || ($w !== '*' && !in_array($g[1], explode('|', $w)))) throw new Violation("$s: expected $w got " . show($g)); }
            elseif ($k === 'falsex') { if ($g !== R(false) && $g !== X($w)) throw new Violation("$s: expected false or $w got " . show($g)); }
        };
        foreach ($ops as $i => $a) { if (Cases::$only === null && $i % $job['nshards'] !== $job['shard']) continue; foreach ($ops as $b) Cases::run([$cls, $a, $b], static function () use ($a, $b, $run, $inv) { $run($a); $run($b); $inv(json_encode([$a, $b])); St::$transitions += 2; St::$traces++; }); }
        St::$states++;
        if (Cases::$only !== null || $job['shard'] === 0) foreach (['clone' => static fn() => clone $o, 'prop' => static function () use ($o) { $o->x = 1; }, 'new' => static fn() => new (get_class($o))] as $k => $f) Cases::run([$cls, $k], static function () use ($k, $f, $inv) { $g = outcome($f); if ($g[0] !== 'x') throw new Violation("$k of an Empty enum was accepted"); $inv($k); });
        if ($cls === 'EmptySequence') Cases::run([$cls, 'mapfilter'], static function () use ($o, $inv) { foreach (['map', 'filter'] as $f) { $r = $o->$f(static function () { throw new Boom; }); expect(0, count($r), "$f count"); } expect(0, count($o->filter()), 'filter()'); $inv('map/filter'); });
    }
}
return [
    'jobs' => function ($tier) {
        $th = $tier === 'thorough'; $jobs = [];
        foreach (['ImmutableSequence', 'ImmutableIterable', 'ImmutableSortedIntSet', 'ImmutableSortedStringSet'] as $cls) {
            $al = match ($cls) { 'ImmutableSortedIntSet' => ['i0', 'i-1', 'i200', 'i3000000000'], 'ImmutableSortedStringSet' => ['s', 'sa', 'sab', 'bff00'], 'ImmutableIterable' => [['sa', 'i1'], ['N', 'N'], [['i1'], 'o1'], ['sa', 's']], default => ['i1', 'N', ['i1'], 'o1'] };
            $cs = [[]]; $cur = [[]]; for ($l = 0; $l < ($th ? 4 : 3); $l++) { $nx = []; foreach ($cur as $s) foreach ($al as $a) if ($l < 2 || $th || !in_array($a, $s, true)) $nx[] = [...$s, $a]; $cur = $nx; $cs = [...$cs, ...$nx]; }
            $ways = array_values(array_diff(Uni::ways($cls), ['pairsgen'])); 
            foreach ($ways as $w) { $ee = $w === 'unser' ? array_values(array_filter($cs, fn($e) => !str_contains(json_encode($e), 'o1'))) : $cs; if (!$th && $w !== $ways[0] && $w !== $ways[1]) $ee = array_values(array_filter($ee, fn($e) => count($e) < 2)); $jobs[] = ['name' => "hist-$cls-$w", 'kind' => 'bfs', 'cfg' => ['cls' => $cls, 'contents' => $ee, 'ways' => [$w], 'iters' => $th ? 2 : 1], 'depth' => 9, 'weight' => 30, 'bound' => 'every content of at most ' . ($th ? 4 : 3) . ' entries of a 4 element pool; every mutator, array-syntax write, reference, re-construction and __unserialize in every iterator position (to closure); all readers and open iterators compared after each']; }
        }
        $ia = ['i0', 'i1', 'i-1', 'i127', 'i128', 'i-128', 'i-129', 'i32767', 'i32768', 'i-32769', 'i2147483647', 'i2147483648', 'i-2147483649', 'M', 'm'];
        $sa = ['s', 's0', 'sa', 'sA', 'sab', 'b00', 'b0000', 'bff', 'b6100', 's' . str_repeat('x', 130), 's' . str_repeat('x', 131)];
        foreach (['ImmutableSortedIntSet' => $ia, 'ImmutableSortedStringSet' => $sa] as $cls => $a) for ($s = 0; $s < 4; $s++) $jobs[] = ['name' => "content-$cls-$s", 'kind' => 'set', 'cls' => $cls, 'alpha' => $a, 'len' => $th ? 4 : 3, 'shard' => $s, 'nshards' => 4, 'weight' => 20, 'bound' => 'every input list of at most ' . ($th ? 4 : 3) . ' of ' . count($a) . ' boundary values in any order with duplicates, every boundary value searched'];
        $jobs[] = ['name' => 'sizes-int', 'kind' => 'sizes', 'cls' => 'ImmutableSortedIntSet', 'sizes' => range(0, $th ? 130 : 40), 'gens' => ['step2', 'neg', 'wide', 'mid'], 'weight' => 10, 'bound' => 'every size, every element and every gap searched'];
        $jobs[] = ['name' => 'sizes-str', 'kind' => 'sizes', 'cls' => 'ImmutableSortedStringSet', 'sizes' => range(0, $th ? 120 : 40), 'gens' => ['str', 'len', 'bin'], 'weight' => 10, 'bound' => 'every size, every element and every gap searched'];
        for ($s = 0; $s < 4; $s++) $jobs[] = ['name' => "empty-$s", 'kind' => 'empty', 'shard' => $s, 'nshards' => 4, 'weight' => 10, 'bound' => 'every pair of operations with every argument of a 16 value pool on each Empty* instance'];
        return [...$jobs, ...Scale::jobs(['ImmutableSequence', 'ImmutableIterable', 'ImmutableSortedIntSet', 'ImmutableSortedStringSet'], 'ctor', $tier)];
    },
    'sys' => fn($job) => new ImmSys($job['cfg']),
    'run' => function ($job) {
        if (($job['kind'] ?? '') === 'scale') { Scale::run($job); return; }
        match ($job['kind']) { 'bfs' => Explorer::bfs(new ImmSys($job['cfg']), $job['depth']), 'set' => c11_set($job), 'sizes' => c11_sizes($job), 'empty' => c11_empty($job) }; },
];
