<?php
require_once __DIR__ . '/../lib/scale.php';
require_once __DIR__ . '/../lib/model.php';
/* CachedIterable over instrumented sources: every interleaving of reads, searches, conversions and iterators, every source fault, every re-entrant call. */
final class Src implements Iterator { // every protocol call is logged; a hook may throw or re-enter
    public int $i = 0; public array $log = []; public $hook = null;
    public function __construct(public array $e) {}
    private function ev(string $m): void { $this->log[] = [$m, $this->i]; if ($this->hook) ($this->hook)($m, $this->i); }
    public function rewind(): void { $this->i = 0; $this->ev('rewind'); }
    public function valid(): bool { $this->ev('valid'); return $this->i < count($this->e); }
    public function current(): mixed { $this->ev('current'); return $this->e[$this->i][1]; }
    public function key(): mixed { $this->ev('key'); return $this->e[$this->i][0]; }
    public function next(): void { $this->i++; $this->ev('next'); }
}
final class SrcAgg implements IteratorAggregate { public function __construct(public $s) {} public function getIterator(): Traversable { return $this->s; } }
function src_gen(Src $s) { // generator flavour: logs 'current' when an element is produced
    foreach ($s->e as $i => [$k, $v]) { $s->i = $i; $s->log[] = ['current', $i]; if ($s->hook) ($s->hook)('current', $i); yield $k => $v; }
    $s->i = count($s->e); if ($s->hook) ($s->hook)('valid', $s->i);
}
function &src_refgen(Src $s) { $v = null; foreach ($s->e as $i => [$k, $w]) { $s->i = $i; $s->log[] = ['current', $i]; if ($s->hook) ($s->hook)('current', $i); $v = $w; yield $k => $v; } $v = 'changed afterwards'; $s->i = count($s->e); if ($s->hook) ($s->hook)('valid', $s->i); }
final class CacheSys extends Sys {
    public function __construct(public array $cfg) {}
    public static array $E = [
        'plain' => [['sa', 'i1'], ['sb', 'N'], ['i0', 's'], ['sc', 'i1'], ['sd', 'F'], ['se', 'i9']],
        'odd' => [['N', 'i1'], [['i1'], 'd0.5'], ['N', 'T'], ['o1', 'o2'], ['d1.5', []], ['s0', 'i2']],
        'dup' => [['i0', 's0'], ['s0', 'i0'], ['F', 'F'], ['i0', 's0'], ['d0', 'd0'], ['i1', 'z']],
    ];
    public function init(): array { return [['new', $this->cfg]]; }
    public function start(array $op): Ctx {
        $c = new Ctx; $cf = $this->cfg = $op[1]; $e = array_slice(self::$E[$cf['set']], 0, $cf['n']);
        $c->x = ['e' => array_map(fn($p) => $c->vs($p), $e), 'f' => 0, 'st' => 'open', 'it' => []]; if ($cf['src'] === 'arrayit') foreach ($c->x['e'] as $i => &$p) $p[0] = $i; unset($p);
        $s = new Src($c->x['e']); $c->x['src'] = $s;
        if (isset($cf['fault'])) { [$fm, $fi] = $cf['fault']; $s->hook = static function ($m, $i) use ($fm, $fi) { if ($m === $fm && $i === $fi) throw new Boom; }; }
        $arg = match ($cf['src']) { 'it' => $s, 'agg' => new SrcAgg(new SrcAgg($s)), 'gen' => src_gen($s), 'refgen' => src_refgen($s), 'agggen' => new SrcAgg(src_gen($s)), 'nested' => new Teds\CachedIterable($s), 'itit' => new IteratorIterator($s), 'arrayit' => new ArrayIterator(array_column($c->x['e'], 1)) };
        $r = outcome(static fn() => new Teds\CachedIterable($arg)); unset($arg);
        if (isset($fm) && $fm === 'rewind') { expect_outcome(X('Boom'), $r, 'constructor whose source throws in rewind()'); $c->x['st'] = 'none'; return $c; }
        if (isset($fm) && in_array($cf['src'], ['gen', 'refgen', 'agggen']) && $fi === 0) { // a generator runs to its first yield when rewound
            if ($r[0] === 'x') { expect('Boom', $r[1], 'constructor exception'); $c->x['st'] = 'none'; return $c; }
        }
        if ($r[0] !== 'r') throw new Violation('constructor threw ' . $r[1]);
        $c->impl = $r[1];
        $this->check($c, 'construction');
        return $c;
    }
    private function fkey(): array { return $this->cfg['fault'] ?? ['', -1]; }
    /* requests elements up to index i; returns null or the exception the call must throw */
    private function need(Ctx $c, int $i): ?string {
        while ($c->x['f'] <= $i && $c->x['st'] === 'open') {
            $f = $c->x['f'];
            if ($this->fkey()[1] === $f) { $c->x['st'] = 'failed'; return 'Boom'; }
            if ($f === count($c->x['e'])) { $c->x['st'] = 'done'; break; }
            $c->x['f']++;
        }
        return null;
    }
    public function ops(Ctx $c): iterable {
        if ($c->x['st'] === 'none') return;
        $n = $this->cfg['n'];
        foreach (['count', 'countfn', 'isEmpty', 'keys', 'values', 'toArray', 'toPairs', 'jsonSerialize', '__serialize', 'cast', 'dump', 'getgc'] as $f) yield [$f];
        foreach ([0, intdiv($n, 2), $n - 1, $n, -1] as $i) { yield ['keyAt', $i]; yield ['valueAt', $i]; }
        $v = ['sabsent', 'N']; $k = ['sabsent', 'N']; foreach (array_slice(self::$E[$this->cfg['set']], 0, $n) as $p) { $k[] = $p[0]; $v[] = $p[1]; }
        $uniq = static fn($a) => array_values(array_map('json_decode', array_unique(array_map('json_encode', $a))));
        foreach ($uniq($k) as $t) { yield ['indexOfKey', $t]; yield ['containsKey', $t]; }
        foreach ($uniq($v) as $t) { yield ['indexOfValue', $t]; yield ['contains', $t]; yield ['containsValue', $t]; }
        for ($j = 0; $j <= $n + 1; $j += max(1, $n - 1)) yield ['foreach', $j];
        yield ['nested'];
        if (count($c->x['it']) < $this->cfg['iters']) yield ['iter'];
        foreach ($c->x['it'] as $i => $_) foreach (['rewind', 'valid', 'current', 'key', 'next'] as $m) yield ['it', $i, $m];
    }
    private const ALL = ['count' => 1, 'countfn' => 1, 'keys' => 1, 'values' => 1, 'toArray' => 1, 'toPairs' => 1, 'jsonSerialize' => 1, '__serialize' => 1];
    public static function exec($o, $its, array $op, Ctx $c): array {
        $f = $op[0];
        return outcome(match ($f) {
            'countfn' => static fn() => count($o),
            'cast' => static fn() => (array)$o,
            'dump' => static function () use ($o) { ob_start(); try { var_dump($o); } finally { $s = ob_get_clean(); } return $s; },
            'getgc' => static fn() => gc_collect_cycles() * 0,
            'foreach' => static function () use ($o, $op) { $r = []; foreach ($o as $k => $v) { if (count($r) >= $op[1]) break; $r[] = [$k, $v]; } return $r; },
            'nested' => static function () use ($o) { $r = []; foreach ($o as $k => $v) foreach ($o as $k2 => $v2) { if (count($r) > 1000) throw new Violation('nested loops do not end'); $r[] = [$k, $v, $k2, $v2]; } return $r; },
            'it' => static fn() => $its[$op[1]]->{$op[2]}(),
            'indexOfKey', 'containsKey', 'indexOfValue', 'contains', 'containsValue' => static fn() => $o->$f($c->v($op[1])),
            default => static fn() => $o->$f(...array_slice($op, 1)),
        });
    }
    public function step(Ctx $c, array $op): void {
        $x = &$c->x; $e = $x['e']; $n = count($e); $f = $op[0]; $failed0 = $x['st'] === 'failed'; $what = json_encode($op) . ' with ' . $x['f'] . ' fetched (' . $x['st'] . ')';
        if ($f === 'iter') { $x['it'][] = $c->impl->getIterator(); $x['pos'][] = 0; $this->check($c, $what); return; }
        $got = self::exec($c->impl, $x['it'], $op, $c); $have = static fn() => array_slice($e, 0, $c->x['f']);
        if (count($got) > 2 && $f !== 'toArray') throw new Violation("$what: emitted a diagnostic");
        $beyond = static function () use ($got, $what) { // asking a failed cache for more: an exception, never an element
            if ($got[0] !== 'x' || !in_array($got[1], ['RuntimeException', 'OutOfBoundsException'])) throw new Violation("$what: after the source failed expected an exception, got " . show($got)); };
        if (isset(self::ALL[$f])) {
            $ex = $this->need($c, $n);
            if ($failed0) $beyond();
            elseif ($ex) expect_outcome(X($ex), $got, $what);
            else switch ($f) {
                case 'count': case 'countfn': expect_outcome(R($n), $got, $what); break;
                case 'keys': expect_outcome(R(array_column($e, 0)), $got, $what); break;
                case 'values': expect_outcome(R(array_column($e, 1)), $got, $what); break;
                case 'toPairs': case 'jsonSerialize': expect_outcome(R($e), $got, $what); break;
                case '__serialize': expect_outcome(R(array_merge([], ...$e)), $got, $what); break;
                case 'toArray': $w = outcome(static function () use ($e) { $r = []; foreach ($e as [$k, $v]) $r[$k] = $v; return $r; }); expect_outcome($w, $got, $what); break;
            }
        } elseif ($f === 'cast' || $f === 'dump') {
            $ex = $this->need($c, $n);
            if ($ex) expect_outcome(X($ex), $got, $what);
            elseif ($failed0 && $got[0] === 'x') $beyond();
            elseif ($f === 'cast') expect_outcome(R($have()), $got, $what);
            else { ob_start(); var_dump($have()); $w = ob_get_clean(); $norm = static fn($s) => preg_replace('/#\d+/', '#', substr($s, strpos($s, "\n"))); if ($norm($w) !== $norm($got[1])) throw new Violation("$what: var_dump shows {$got[1]}"); }
        } elseif ($f === 'getgc') { expect_outcome(R(0), $got, $what);
        } elseif ($f === 'isEmpty') {
            $ex = $this->need($c, 0);
            if ($x['f'] > 0) expect_outcome(R(false), $got, $what); elseif ($failed0) $beyond(); elseif ($ex) expect_outcome(X($ex), $got, $what); else expect_outcome(R(true), $got, $what);
        } elseif ($f === 'keyAt' || $f === 'valueAt') {
            $i = $op[1]; $ex = $this->need($c, $i < 0 ? $n : $i);
            if ($i >= 0 && $i < $x['f']) expect_outcome(R($e[$i][$f === 'keyAt' ? 0 : 1]), $got, $what);
            elseif ($failed0) $beyond(); elseif ($ex) expect_outcome(X($ex), $got, $what); else expect_outcome(X('OutOfBoundsException'), $got, $what);
        } elseif (in_array($f, ['indexOfKey', 'containsKey', 'indexOfValue', 'contains', 'containsValue'])) {
            $t = $c->v($op[1]); $col = str_contains($f, 'Key') ? 0 : 1; $at = null; $ex = null;
            for ($i = 0; $i <= $n; $i++) { $ex = $this->need($c, $i); if ($ex || $i >= $x['f']) break; if ($e[$i][$col] === $t) { $at = $i; break; } }
            if ($at !== null) expect_outcome(R(str_starts_with($f, 'indexOf') ? $at : true), $got, $what);
            elseif ($ex) expect_outcome(X($ex), $got, $what);
            elseif ($failed0 && $got[0] === 'x') $beyond();
            else expect_outcome(R(str_starts_with($f, 'indexOf') ? null : false), $got, $what);
        } elseif ($f === 'foreach') {
            $ex = $this->need($c, $op[1]);
            if ($ex) expect_outcome(X($ex), $got, $what);
            elseif ($failed0 && $x['f'] <= $op[1] && $got[0] === 'x') $beyond();
            else expect_outcome(R(array_slice($e, 0, min($op[1], $x['f']))), $got, $what);
        } elseif ($f === 'nested') {
            $ex = $this->need($c, $n);
            if ($ex) expect_outcome(X($ex), $got, $what);
            elseif ($failed0 && $got[0] === 'x') $beyond();
            else { $w = []; foreach ($have() as [$k, $v]) foreach ($have() as [$k2, $v2]) $w[] = [$k, $v, $k2, $v2]; expect_outcome(R($w), $got, $what); }
        } elseif ($f === 'it') {
            $p = &$x['pos'][$op[1]];
            switch ($op[2]) {
                case 'rewind': $p = 0; expect_outcome(R(), $got, $what); break;
                case 'next': $p = min($p + 1, $n + 2); expect_outcome(R(), $got, $what); break;
                case 'valid': $ex = $this->need($c, $p); if ($p < $x['f']) expect_outcome(R(true), $got, $what); elseif ($ex) expect_outcome(X($ex), $got, $what); elseif ($failed0 && $got[0] === 'x') $beyond(); else expect_outcome(R(false), $got, $what); break;
                default: $ex = $this->need($c, $p); if ($p < $x['f']) expect_outcome(R($e[$p][$op[2] === 'key' ? 0 : 1]), $got, $what); elseif ($ex) expect_outcome(X($ex), $got, $what); else $beyond();
            }
        }
        $this->check($c, $what);
    }
    /* laziness and exactly-once, from the source's own log */
    public function check(Ctx $c, string $what): void {
        if ($this->cfg['src'] === 'arrayit') return;
        $s = $c->x['src']; $cnt = ['rewind' => 0]; foreach ($s->log as [$m, $i]) $cnt["$m$i"] = ($cnt["$m$i"] ?? 0) + 1;
        $f = $c->x['f']; $gen = !in_array($this->cfg['src'], ['it', 'agg', 'nested', 'itit']);
        foreach ($cnt as $k => $v) if ($v > 1) throw new Violation("$what: the source's $k was called $v times");
        for ($i = 0; $i < $f; $i++) if (($cnt["current$i"] ?? 0) !== 1) throw new Violation("$what: element $i was not produced by the source");
        // an element beyond those requested must not have been produced (a generator or IteratorIterator produces its first element when rewound)
        $ahead = $gen || $this->cfg['src'] === 'itit' ? max($f, 1) : $f;
        if ($c->x['st'] === 'open') foreach ($s->log as [$m, $i]) if ($i >= max($ahead, 1) || ($m === 'current' && $i >= $ahead)) throw new Violation("$what: only $f elements were requested but the source was asked for '$m' at position $i");
        if ($c->x['st'] === 'failed') foreach ($s->log as [$m, $i]) if ($i > $this->fkey()[1]) throw new Violation("$what: the source was advanced after it had thrown");
    }
    public function probe(Ctx $c, bool $full): void {}
    public function key(Ctx $c): string { return json_encode([$c->x['f'], $c->x['st'], $c->x['pos'] ?? []]); }
}
/* A source that calls back into the cache that is reading it. */
function c12_reenter(array $cfg): void {
    $sys = new CacheSys(['n' => $cfg['n'], 'set' => 'plain', 'src' => $cfg['src'], 'iters' => 1]);
    $points = []; $ms = $cfg['src'] === 'it' ? ['valid', 'current', 'key', 'next'] : ['current', 'valid'];
    foreach ($ms as $m) for ($i = 0; $i <= $cfg['n']; $i++) { if ($m === 'next' && $i === 0) continue; if ($i === $cfg['n'] && ($m === 'current' || $m === 'key')) continue; if ($cfg['src'] === 'gen' && ($m === 'valid' ? $i < $cfg['n'] : $i === 0)) continue; $points[] = [$m, $i]; }
    $c0 = $sys->start(['new', $sys->cfg]); $inner = [...$sys->ops($c0)]; unset($c0);
    $inner = array_filter($inner, fn($o) => $o[0] !== 'iter');
    foreach (['valid', 'current', 'key', 'next'] as $m) $inner[] = ['it', 0, $m];
    $outer = [['count'], ['valueAt', $cfg['n'] - 1], ['foreach', 99], ['toPairs'], ['contains', 'sabsent'], ['it', 0, 'valid'], ['isEmpty']];
    foreach ($points as $pt) foreach ($inner as $in) foreach ($outer as $ou) foreach ([true, false] as $catch) Cases::run([$cfg['src'], $pt, $in, $ou, $catch], function () use ($sys, $pt, $in, $ou, $catch, $cfg) {
        $c = $sys->start(['new', $sys->cfg]); $c->x['it'][] = $c->impl->getIterator(); $c->x['pos'] = [0];
        $o = $c->impl; $its = $c->x['it']; $seen = null; $rec = null; $n = $cfg['n']; $e = $c->x['e'];
        $c->x['src']->hook = static function ($m, $i) use ($pt, $in, $catch, &$o, &$its, $c, &$seen, &$rec) {
            if ([$m, $i] !== $pt || $seen !== null) return;
            $seen = $i; $rec = CacheSys::exec($o, $its, $in, $c);
            if ($rec[0] === 'x' && !$catch) throw new Boom;
        };
        $got = CacheSys::exec($o, $its, $ou, $c);
        St::$transitions++; St::$traces++;
        $at = $seen;
        if ($rec !== null) {
            St::outcome("reenter {$in[0]} " . ($rec[0] === 'x' ? $rec[1] : 'ok'));
            $have = array_slice($e, 0, $at);
            // the inner call: answered from the elements already cached, or refused
            if ($rec[0] === 'x') { if (!in_array($rec[1], ['RuntimeException', 'OutOfBoundsException'])) throw new Violation('re-entrant call threw ' . $rec[1]); }
            else switch ($in[0]) {
                case 'keyAt': case 'valueAt': if ($in[1] < 0 || $in[1] >= $at) throw new Violation('re-entrant call returned an element that does not exist yet: ' . show($rec)); expect($e[$in[1]][$in[0] === 'keyAt' ? 0 : 1], $rec[1], 're-entrant ' . $in[0]); break;
                case 'count': case 'countfn': case 'keys': case 'values': case 'toArray': case 'toPairs': case 'jsonSerialize': case '__serialize': throw new Violation('re-entrant call needing every element returned ' . show($rec));
                case 'indexOfKey': case 'indexOfValue': if ($rec[1] === null || $rec[1] >= $at) throw new Violation('re-entrant search returned ' . show($rec)); expect($c->v($in[1]), $e[$rec[1]][$in[0] === 'indexOfKey' ? 0 : 1], 're-entrant search'); break;
                case 'foreach': expect(array_slice($have, 0, $in[1]), $rec[1], 're-entrant foreach'); break;
                case 'isEmpty': expect(false, $rec[1], 're-entrant isEmpty'); break;
            }
        }
        $c->x['src']->hook = null;
        if ($rec !== null && $rec[0] === 'x' && !$catch) { if ($got !== X('Boom')) throw new Violation('the exception of the source did not reach the caller: ' . show($got)); for ($i = 0; $i < $at; $i++) expect($e[$i][1], $o->valueAt($i), "element $i after a failed fetch"); return; }
        if ($got[0] === 'x' && $got[1] === 'Boom') throw new Violation('unexpected Boom');
        expect($e, $o->toPairs(), 'content afterwards'); expect($n, count($o), 'count afterwards');
        if ($ou[0] === 'count') expect_outcome(R($n), $got, 'outer count'); if ($ou[0] === 'foreach') expect_outcome(R($e), $got, 'outer foreach');
        $cnt = []; foreach ($c->x['src']->log as [$m, $i]) { $cnt["$m$i"] = ($cnt["$m$i"] ?? 0) + 1; if ($cnt["$m$i"] > 1) throw new Violation("source's $m$i called twice"); }
    });
}
return [
    'jobs' => function ($tier) {
        $th = $tier === 'thorough'; $jobs = []; $N = $th ? 5 : 4;
        foreach (['it', 'agg', 'gen', 'refgen', 'agggen', 'nested', 'itit', 'arrayit'] as $src) foreach (['plain', 'odd', 'dup'] as $set) {
            if ($src === 'arrayit' && $set !== 'plain') continue;
            $jobs[] = ['name' => "inter-$src-$set", 'kind' => 'bfs', 'cfgs' => array_map(fn($n) => ['n' => $n, 'set' => $set, 'src' => $src, 'iters' => $th ? 3 : ($n > 2 ? 1 : 2)], range(0, $N)), 'depth' => $th ? 14 : 12, 'weight' => $src === 'it' ? 30 : 20, 'bound' => "source '$src' with 0..$N elements: explicit-state search to closure over (elements fetched, source state, positions of up to " . ($th ? 3 : 2) . ' iterators), every read operation in every state'];
        }
        foreach (['it', 'agg', 'nested', 'itit', 'gen', 'refgen'] as $src) {
            $cf = [];
            for ($n = 0; $n <= ($th ? 4 : 3); $n++) foreach (in_array($src, ['gen', 'refgen']) ? ['current', 'valid'] : ['rewind', 'valid', 'current', 'key', 'next'] as $m) for ($i = 0; $i <= $n; $i++) {
                if ($m === 'rewind' && $i > 0 || $m === 'next' && $i === 0 || in_array($m, ['current', 'key']) && $i === $n || in_array($src, ['gen', 'refgen']) && $m === 'valid' && $i < $n) continue;
                if ($src === 'nested' && $m === 'rewind') continue;
                if ($src === 'itit' && $i === 0) continue;
                $cf[] = ['n' => $n, 'set' => 'plain', 'src' => $src, 'iters' => 1, 'fault' => [$m, $i]];
            }
            $jobs[] = ['name' => "fault-$src", 'kind' => 'bfs', 'cfgs' => $cf, 'depth' => 10, 'weight' => 20, 'bound' => 'a source that throws at every possible protocol call, every read operation before, at and after the failure, to closure'];
        }
        foreach (['it', 'gen'] as $src) for ($n = 1; $n <= ($th ? 4 : 3); $n++) $jobs[] = ['name' => "reenter-$src-$n", 'kind' => 'reenter', 'cfg' => ['src' => $src, 'n' => $n], 'weight' => 15, 'bound' => 'every source method at every element calls every read operation of the cache being filled, caught or propagated, from 7 outer operations'];
        return [...$jobs, ...Scale::jobs(['CachedIterable'], 'ctor', $tier)];
    },
    'sys' => fn($job) => new CacheSys($job['cfg'] ?? $job['cfgs'][0]),
    'run' => function ($job) {
        if (($job['kind'] ?? '') === 'scale') { Scale::run($job); return; }
       
        if ($job['kind'] === 'reenter') { c12_reenter($job['cfg']); return; }
        foreach ($job['cfgs'] as $cfg) { Explorer::bfs(new CacheSys($cfg), $job['depth']); }
    },
];
