<?php
require_once __DIR__ . '/../lib/uni.php';
/* Iterators and mutations interleaved. Model: the content list plus, per open iterator, a cursor:
   -1 before the first element (its element was removed), 0..n-1 at that element, s-0.5 in a hash table between elements s-1 and s
   (its element was removed: may report either neighbour or none until next(), which goes to s), 'e' end reported, 'u' unspecified
   (after clear(), a shrinking setSize(), or a change made after the end was reached: only safety is required), 'f' not started.
   Removing at i moves cursors c >= i to c-1; inserting at i moves cursors c >= i up. */
final class ItSys extends Sys {
    public string $cls; public string $kind; public array $cfg;
    public function __construct(array $cfg) { $this->cfg = $cfg; $this->cls = $cfg['cls']; $this->kind = Uni::kind($this->cls); }
    public function init(): array { $r = []; foreach ($this->cfg['sizes'] as $n) foreach ($this->cfg['pre'] ?? ['plain'] as $p) $r[] = ['new', $n, $p]; return $r; }
    private function val(Ctx $c) {
        $i = $c->fresh++;
        return match ($this->cls) { 'BitVector' => (bool)((0b110100101 >> ($i % 9)) & 1), 'IntVector' => [1, 2, 300, 70000, -3, 5000000000][$i % 6] + $i * 6, 'LowMemoryVector' => $i % 5 === 3 ? "s$i" : $i, default => "e$i" };
    }
    private function k(Ctx $c, int $k) {
        if (!empty($this->cfg['collide'])) return $k * 64 * 1024 + 5;
        if ($this->cls === 'SortedIntVectorSet' && $k < 0) return $k; return $this->cls === 'SortedIntVectorSet' ? [1, 2, 300, 70000, 5000000000, 5000000001, 5000000002, 5000000003, 5000000004, 5000000005, 5000000006, 5000000007][$k] ?? 5000000000 + $k : $k;
    }
    private function entry(Ctx $c, int $k) { return match ($this->kind) { 'seq' => $this->val($c), 'map', 'pairs' => [$this->kind === 'map' ? $this->k($c, $k) : 'k' . $c->fresh, $this->val($c)], 'set' => $this->k($c, $k) }; }
    public function start(array $op): Ctx {
        $c = new Ctx; $c->x = ['cur' => [], 'it' => [], 'slots' => '']; $e = [];
        for ($i = 0; $i < $op[1]; $i++) $e[] = $this->entry($c, $this->cfg['order'][$i] ?? $i);
        $c->model = Uni::model($this->cls, $e);
        switch ($op[2]) {
            case 'plain': $c->impl = Uni::make($this->cls, $e); $c->x['slots'] = str_repeat('x', $op[1]); break;
            case 'one': $c->impl = Uni::make($this->cls, $e, 'one'); $c->x['slots'] = str_repeat('x', $op[1]); break;
            case 'rot': // deque with a rotated ring: push and popFront before filling
                $c->impl = new Teds\Deque([9, 9, 9]); for ($i = 0; $i < 3; $i++) { $c->impl->push(9); $c->impl->popFront(); } while (count($c->impl)) $c->impl->popFront(); foreach ($e as $x) $c->impl->push($x); break;
            case 'holes': // hash tables with removed entries at the front and in between
                $c->impl = Uni::make($this->cls, [], 'one'); foreach ($e as $i => $x) { $j = $this->kind === 'map' ? ["junk$i", 1] : "junk$i"; Uni::insertOne($this->cls, $c->impl, $j); Uni::insertOne($this->cls, $c->impl, $x); } foreach ($e as $i => $x) { if ($this->kind === 'map') unset($c->impl["junk$i"]); else $c->impl->remove("junk$i"); } $c->x['slots'] = str_repeat('.x', $op[1]); break;
        }
        for ($i = 0; $i < ($this->cfg['open'] ?? 0); $i++) $this->open($c, $i, false);
        return $c;
    }
    private function open(Ctx $c, int $i, bool $lazy): void { $c->x['it'][$i] = $c->impl->getIterator(); if ($lazy) $c->x['cur'][$i] = 'f'; else { $c->x['it'][$i]->valid(); $c->x['cur'][$i] = $c->model ? 0 : 'u'; } ksort($c->x['cur']); }
    public static function churn(string $cls, string $kind, $d): void { // changes at the front, which would move iterators registered with the wrong object
        if (!count($d)) return;
        switch ($kind) {
            case 'seq': $x = $d[0]; unset($d[0]); $d->pushFront($x); $d->insert(0, $x); $d->popFront(); $d->push($x); $d->pop(); break;
            case 'map': foreach ($d as $k => $v) break; unset($d[$k]); $d[$k] = $v; if (method_exists($d, 'shift')) { [$k, $v] = $d->shift(); $d[$k] = $v; } break;
            case 'set': foreach ($d as $k) break; $d->remove($k); $d->add($k); if (method_exists($d, 'shift')) { $k = $d->shift(); $d->add($k); } break;
            case 'pairs': [$k, $v] = $d->pop(); $d->push($k, $v); break;
        }
    }
    public function ops(Ctx $c): iterable {
        $n = count($c->model); $N = $this->cfg['N']; $r = []; $full = $this->cfg['full'] ?? true;
        for ($i = 0; $i < $this->cfg['its']; $i++) {
            if (!isset($c->x['it'][$i])) { yield ['open', $i]; if ($full) yield ['lazy', $i]; if ($i === 0) break; continue; }
            yield ['next', $i]; if ($full) yield ['rewind', $i];
            if ($full) yield ['close', $i];
        }
        if ($full) { yield ['clonemut']; }
        switch ($this->kind) {
            case 'seq':
                if ($n + 2 <= $N) { yield ['push', 1]; if ($full) yield ['push', 2]; yield ['pushFront', 1]; yield ['pushFront', 2]; if ($full) yield ['unshift', 1]; for ($i = 0; $i <= $n; $i++) { yield ['insert', $i, 1]; if ($full) yield ['insert', $i, 2]; } }
                yield ['pop']; yield ['popFront']; if ($full) yield ['shift'];
                for ($i = 0; $i < $n; $i++) { yield ['unset', $i]; if ($full) yield ['set', $i]; }
                yield ['clear'];
                if (in_array($this->cls, ['Vector', 'BitVector'])) foreach ([0, 1, $n - 1, $n + 1] as $s) if ($s >= 0 && $s <= $N) yield ['setSize', $s];
                if ($this->cls === 'Vector' && $full) yield ['shrinkToFit'];
                break;
            case 'map': for ($k = 0; $k < $this->cfg['K']; $k++) { yield ['put', $k]; yield ['del', $k]; } yield ['clear']; if ($this->cls !== 'StrictHashMap') { yield ['pop']; yield ['popFront']; if ($full) yield ['shift']; } break;
            case 'set': for ($k = 0; $k < $this->cfg['K']; $k++) { yield ['add', $k]; yield ['remove', $k]; } yield ['clear']; if ($this->cls !== 'StrictHashSet') { yield ['pop']; if ($this->cls !== 'SortedIntVectorSet') { yield ['popFront']; if ($full) yield ['shift']; } } break;
            case 'pairs': if ($n < $N) yield ['push', 1]; yield ['pop']; yield ['clear']; foreach ([0, 1, $n - 1, $n + 1] as $s) if ($s >= 0 && $s <= $N) yield ['setSize', $s]; if ($n && $full) { yield ['setValueAt', 0]; yield ['setKeyAt', $n - 1]; } if ($full) yield ['shrinkToFit']; break;
        }
    }
    private function concrete(Ctx $c, array $op): array {
        switch ($op[0]) {
            case 'push': case 'pushFront': case 'unshift': if ($this->kind === 'pairs') return ['push', 'k' . $c->fresh, $this->val($c)]; $a = [$op[0]]; for ($i = 0; $i < $op[1]; $i++) $a[] = $this->val($c); return $a;
            case 'insert': $a = ['insert', $op[1]]; for ($i = 0; $i < $op[2]; $i++) $a[] = $this->val($c); return $a;
            case 'set': case 'setValueAt': return [$op[0], $op[1], $this->val($c)];
            case 'setKeyAt': return [$op[0], $op[1], 'nk' . $c->fresh++];
            case 'setSize': return $this->kind === 'pairs' ? ['setSize', $op[1]] : ['setSize', $op[1], $this->val($c)];
            case 'put': return ['put', $this->k($c, $op[1]), $this->val($c)];
            case 'del': case 'add': case 'remove': return [$op[0], $this->k($c, $op[1])];
        }
        return $op;
    }
    private function shift(Ctx $c, callable $f): void { foreach ($c->x['cur'] as $i => $cur) if ($cur !== 'f') $c->x['cur'][$i] = is_string($cur) ? 'u' : $f($cur); }
    public function step(Ctx $c, array $op): void {
        $n = count($c->model);
        switch ($op[0]) {
            case 'open': $this->open($c, $op[1], false); return;
            case 'lazy': $this->open($c, $op[1], true); return;
            case 'close': unset($c->x['it'][$op[1]], $c->x['cur'][$op[1]]); return;
            case 'rewind': $c->x['it'][$op[1]]->rewind(); $c->x['cur'][$op[1]] = $n ? 0 : 'u'; return;
            case 'next':
                $c->x['it'][$op[1]]->next(); $cur = $c->x['cur'][$op[1]]; if ($cur === 'f') $cur = $n ? 0 : 'u';
                $c->x['cur'][$op[1]] = is_string($cur) ? $cur : ((int)floor($cur + 1) < $n ? (int)floor($cur + 1) : 'e'); return;
            case 'clonemut':
                $d = clone $c->impl; if (count($d)) { foreach ($d as $_) { break; } } Uni::insertOne($this->cls, $d, Uni::sample($this->cls, 1, 3)[0]); self::churn($this->cls, $this->kind, $d); $it = $d->getIterator(); $it->valid(); self::churn($this->cls, $this->kind, $d); if (!empty($this->cfg['keepclone'])) { $c->x['keep'] = [$d, $it]; } else $d->clear(); unset($d, $it); return;
        }
        $real = $this->concrete($c, $op); [$exp, $m2] = Uni::apply($this->cls, $c->model, $real); $d = count($m2) - $n;
        Uni::cmp($exp, Uni::exec($c->impl, $real), json_encode($op));
        if ($exp[0] === 'x') { $c->model = $m2; return; }
        switch ($op[0]) {
            case 'push': case 'set': case 'setValueAt': case 'setKeyAt': case 'shrinkToFit': if ($d) $this->shift($c, static fn($x) => $x); break;
            case 'pushFront': case 'unshift': $this->shift($c, static fn($x) => $x >= 0 ? $x + $d : $x); break;
            case 'insert': $this->shift($c, static fn($x) => $x >= $op[1] ? $x + $d : $x); break;
            case 'pop': $this->shift($c, static fn($x) => $x >= $n - 1 ? $x - 1 : $x); break;
            case 'popFront': case 'shift': $this->shift($c, static fn($x) => $x >= 0 ? $x - 1 : $x); break;
            case 'unset': $this->shift($c, static fn($x) => $x >= $op[1] ? $x - 1 : $x); break;
            case 'clear': if ($n) $this->shift($c, static fn($x) => 'u'); break;
            case 'setSize': if ($d) $this->shift($c, static fn($x) => $x >= count($m2) || !$m2 ? 'u' : $x); break;
            case 'put': case 'add': if ($d) { $i = $this->kind === 'map' ? Uni::findKey($this->cls, $m2, $real[1]) : Uni::findVal($this->cls, $m2, $real[1]); $this->shift($c, static fn($x) => $x >= $i ? $x + 1 : $x); $c->x['slots'] .= 'x'; } break;
            case 'del': case 'remove': if ($d) { $i = $this->kind === 'map' ? Uni::findKey($this->cls, $c->model, $real[1]) : Uni::findVal($this->cls, $c->model, $real[1]); $hash = str_contains($this->cls, 'Hash'); $this->shift($c, static fn($x) => $x === $i && $hash ? $x - 0.5 : ($x >= $i ? $x - 1 : $x)); $p = -1; for ($j = 0, $q = -1; $j < strlen($c->x['slots']); $j++) if ($c->x['slots'][$j] === 'x' && ++$q === $i) { $c->x['slots'][$j] = '.'; break; } } break;
        }
        if ($op[0] === 'clear') $c->x['slots'] = '';
        $c->model = $m2;
    }
    public function probe(Ctx $c, bool $full): void {
        Uni::expectContent($c->impl, $c->model, 'content');
        $n = count($c->model); $pairy = Uni::pairy($this->cls);
        foreach ($c->x['it'] as $i => $it) {
            $cur = $c->x['cur'][$i]; if ($cur === 'f') continue;
            $valid = $it->valid(); $at = is_int($cur) && $cur >= 0;
            if (is_float($cur)) {
                $k = outcome(static fn() => $it->key()); $v = outcome(static fn() => $it->current()); $k2 = outcome(static fn() => $it->key()); $valid = $it->valid();
                $s = (int)($cur + 0.5); $hit = null;
                foreach ([$s, $s - 1] as $j) if (isset($c->model[$j]) && $v[0] === 'r' && same($v[1], $pairy ? $c->model[$j][1] : $c->model[$j]) && $k[0] === 'r' && same($k[1], $pairy ? $c->model[$j][0] : $c->model[$j]) && same($k2[1], $k[1])) $hit = $j;
                if ($hit !== null) { $c->x['cur'][$i] = $cur = $hit; $at = true; }
                elseif (($v[0] === 'r' && $v[1] !== null) || ($k[0] === 'r' && $k[1] !== null)) throw new Violation("iterator $i, whose element was removed, reports " . show([$k, $v]) . ' next to position ' . $cur . ' of ' . show($c->model));
                elseif ($valid) throw new Violation("iterator $i is valid but has no element: " . show([$k, $v])); else continue;
            }
            if ($cur === 'u') {
                if (!$valid) { $this->noElement($it, "iterator $i", $c->model); continue; }
                $k = $it->key(); $v = $it->current(); $idx = null; $hits = [];
                foreach ($c->model as $j => $e) if (match ($this->kind) { 'seq' => $j === $k, 'set' => same($e, $v), default => same($e[0], $k) && same($e[1], $v) }) { $hits[] = $idx = $j; }
                if ($idx === null) throw new Violation("iterator $i reports " . show([$k, $v]) . ', not an element of ' . show($c->model));
                if (count($hits) > 1) continue; $c->x['cur'][$i] = $cur = $idx; $at = true;
            }
            if ($at !== $valid) throw new Violation("iterator $i: valid() is " . var_export($valid, true) . ", expected to be " . ($at ? "at element $cur of " . show($c->model) : ($cur === -1 ? 'before the first element' : 'at the end')));
            if (!$valid) { $this->noElement($it, "iterator $i"); continue; }
            $e = $c->model[$cur]; $k = $it->key();
            expect($pairy ? $e[1] : $e, $it->current(), "iterator $i current()");
            if ($pairy) expect($e[0], $k, "iterator $i key()"); elseif ($this->kind === 'seq') expect($cur, $k, "iterator $i key()"); elseif (!same($k, $e) && $k !== $cur) throw new Violation("iterator $i key() is " . show($k));
        }
        St::outcome($this->cls . ' ' . implode(',', array_map(static fn($x) => is_string($x) ? $x : (is_float($x) ? 'gap' : ($x < 0 ? 'before' : 'at')), $c->x['cur'])));
    }
    private function noElement($it, string $what, array $m = []): void {
        foreach (['current', 'key'] as $f) { $o = outcome(static fn() => $it->$f()); if ($o[0] === 'r' && $o[1] !== null && !array_filter($m, static fn($e) => same($e, $o[1]) || (is_array($e) && in_array($o[1], $e, true)))) throw new Violation("$what is not valid but $f() returned " . show($o[1])); if ($o[0] === 'x' && $o[1] !== 'OutOfBoundsException') throw new Violation("$what $f(): {$o[1]}"); }
    }
    public function finish(Ctx $c): void { // every iterator runs to its end: the rest of the content exactly once
        $n = count($c->model); $pairy = Uni::pairy($this->cls);
        foreach ($c->x['it'] as $i => $it) {
            $cur = $c->x['cur'][$i]; if ($cur === 'f') $cur = $n ? 0 : 'u';
            if (is_float($cur)) { $it->next(); $cur = (int)($cur + 0.5); }
            if (!is_int($cur)) { $s = 0; while ($it->valid()) { $it->next(); if ($s++ > 200) throw new Violation('iterator does not end'); } continue; }
            if ($cur < 0) { $it->next(); $cur = 0; }
            for (; $cur < $n; $cur++) { if (!$it->valid()) throw new Violation("iterator $i ended before element $cur of " . show($c->model)); expect($pairy ? $c->model[$cur][1] : $c->model[$cur], $it->current(), "iterator $i rest"); $it->next(); }
            if ($it->valid()) throw new Violation("iterator $i yields more elements than remain");
        }
        if ($this->cfg['rev'] ?? false) { foreach (array_reverse(array_keys($c->x['it'])) as $i) unset($c->x['it'][$i]); }
        else foreach (array_keys($c->x['it']) as $i) unset($c->x['it'][$i]);
        Uni::expectContent($c->impl, $c->model, 'content at the end'); $c->impl->clear(); expect(0, count($c->impl), 'count after clear');
    }
    public function key(Ctx $c): string { // exchangeable values of sequences are abstracted to the number of elements
        $h = $this->kind === 'seq' || $this->kind === 'pairs' ? (string)count($c->model) : implode(',', array_map(static fn($e) => is_array($e) ? $e[0] : $e, $c->model)) . (str_contains($this->cls, 'Hash') ? '|' . $c->x['slots'] : '');
        return $h . '|' . json_encode($c->x['cur']);
    }
}

/* foreach loops whose body changes the collection at two points */
function c13_loops(array $job): void {
    $cls = $job['cls'];
    foreach ($job['sizes'] as $n) {
        $ns = max($n, 1);
        for ($i = 0; $i < $ns; $i++) {
            $probe = new ItSys(['cls' => $cls, 'sizes' => [$n], 'pre' => [$job['pre']], 'its' => 1, 'N' => $n + 8, 'K' => min($n + 2, 12), 'full' => false, 'open' => 1]);
            $acts = []; $c0 = $probe->start(['new', $n, $job['pre']]); foreach ($probe->ops($c0) as $op) if (!in_array($op[0], ['open', 'next', 'lazy', 'close', 'rewind'])) $acts[] = $op; unset($c0);
            foreach ($acts as $a) for ($j = $i; $j <= $i + 1; $j++) foreach ($job['two'] ? $acts : [null] as $b) Cases::run([$n, $i, $a, $j, $b], static function () use ($job, $cls, $n, $i, $a, $j, $b, $probe) {
                $c = $probe->start(['new', $n, $job['pre']]); $steps = 0; $pairy = Uni::pairy($cls);
                foreach ($c->impl as $k => $v) { // cursor 0 is a second, explicit iterator stepped in lock step: both must agree with the model
                    if ($steps > 60) throw new Violation('foreach does not end');
                    $cur = $c->x['cur'][0];
                    if (!is_int($cur) || $cur < 0) { if (is_string($cur)) break; throw new Violation('foreach produced an element although its position is before the first'); }
                    $e = $c->model[$cur]; expect($pairy ? $e[1] : $e, $v, "foreach value at step $steps"); if ($pairy) expect($e[0], $k, "foreach key at step $steps"); elseif (Uni::kind($cls) === 'seq') expect($cur, $k, "foreach key at step $steps");
                    if ($steps === $i) $probe->step($c, $a);
                    if ($steps === $j && $b !== null) { foreach (['insert' => 1, 'unset' => 1, 'setValueAt' => 1, 'setKeyAt' => 1] as $f => $_) if ($b[0] === $f && $b[1] >= count($c->model)) { $skip = true; } if (empty($skip)) $probe->step($c, $b); $skip = false; }
                    if (!str_contains($cls, 'Hash')) $probe->probe($c, false); $probe->step($c, ['next', 0]); $probe->probe($c, false); $steps++; St::$transitions++;
                }
                $cur = $c->x['cur'][0];
                if (is_int($cur) && $cur >= 0) throw new Violation("foreach ended although element $cur of " . show($c->model) . ' was still to come');
                $probe->finish($c); St::$traces++; St::$states++;
            });
        }
    }
}
/* Larger tables: iterators at many positions at once, every small set of removals, then insertions that pack, grow or shift the storage. */
function c13_large(array $job): void {
    $cls = $job['cls']; $kind = Uni::kind($cls); $hash = str_contains($cls, 'Hash');
    foreach ($job['sizes'] as $n) {
        $mid = $n >> 1; $cand = array_values(array_unique(array_filter([0, 1, $mid - 1, $mid, $mid + 1, $n - 2, $n - 1], static fn($x) => $x >= 0 && $x < $n)));
        $rem = [[]]; foreach ($cand as $a) $rem[] = [$a]; foreach ($cand as $i => $a) foreach ($cand as $j => $b) if ($job['two'] && $j > $i) { $rem[] = [$a, $b]; if ($job['th']) $rem[] = [$b, $a]; } $rem[] = range(0, min($n - 1, 3)); $rem[] = range(max(0, $n - 4), $n - 1); $rem[] = range(0, $n - 1, 3); if ($n > 3) { $rem[] = range(1, $n - 1); $rem[] = range(0, $n - 2); }
        foreach ($job['pre'] as $pre) foreach ($rem as $rs) foreach (['end', 'mid', 'front', 'many', 'frontmany', 'midmany'] as $where) { if (str_ends_with($where, 'tmany') || str_ends_with($where, 'dmany')) if ($kind !== 'seq' || count($rs) > 1) continue; if ($kind === 'pairs' && $where !== 'end' && $where !== 'many') continue; if ($hash && ($where === 'front' || $where === 'mid')) continue;
            Cases::run([$n, $pre, $rs, $where], static function () use ($cls, $kind, $n, $mid, $pre, $rs, $where) {
                $S = new ItSys(['cls' => $cls, 'sizes' => [$n], 'its' => 0, 'N' => 1000, 'K' => 1000, 'order' => $n ? range(0, 2 * $n - 2, 2) : [], 'full' => false]); $c = $S->start(['new', $n, $pre]);
                $pos = array_values(array_unique(array_filter([0, 1, 2, $mid - 1, $mid, $mid + 1, $n - 3, $n - 2, $n - 1, $n], static fn($x) => $x >= 0)));
                foreach ($pos as $i => $p) { $c->x['it'][$i] = $it = $c->impl->getIterator(); $it->rewind(); for ($j = 0; $j < $p; $j++) $it->next(); $c->x['cur'][$i] = $p < $n ? $p : ($n ? 'e' : 'u'); }
                $probe = static function () use ($S, $c) { $S->probe($c, false); St::$transitions++; }; $probe();
                $keys = $rs; rsort($keys); if ($kind === 'seq') $rs = $keys; // offsets move
                foreach ($rs as $r) { $S->step($c, match ($kind) { 'seq' => ['unset', $r], 'map' => ['del', 2 * $r], 'set' => ['remove', 2 * $r], 'pairs' => ['pop'] }); if (count($rs) < 5) $probe(); } $probe();
                $m = count($c->model); $q = $where === 'many' ? $n + 3 : 2;
                for ($j = 0; $j < $q; $j++) { $S->step($c, match ($kind) { 'seq' => match ($where) { 'end', 'many' => ['push', 1], 'front' => ['pushFront', 1 + $j], 'mid' => ['insert', min($mid, $m), 1 + $j], 'frontmany' => ['pushFront', 9 + 61 * $j], 'midmany' => ['insert', min($mid, $m), 9 + 61 * $j] }, 'pairs' => ['push', 1],
                        default => [$kind === 'map' ? 'put' : 'add', match ($where) { 'end', 'many' => 2 * $n + $j, 'mid' => 2 * $mid - 1 + 2 * $j, 'front' => -1 - $j }] }); if ($q < 5 || $j % 7 === 0) $probe(); } $probe();
                if ($n) { $S->step($c, match ($kind) { 'map' => ['del', $where === 'front' ? -1 : 2 * $n], 'set' => ['remove', 2 * $n], 'seq' => ['popFront'], 'pairs' => ['pop'] }); $probe(); }
                foreach ($c->x['it'] as $i => $_) { $S->step($c, ['next', $i]); } $probe(); $S->finish($c); St::$traces++; St::$states++;
            }); }
    }
}
/* Several iterators released in every order, each release followed by changes that must move the remaining ones. */
function c13_release(array $job): void {
    $cls = $job['cls']; $kind = Uni::kind($cls); $perms = [[]]; for ($i = 0; $i < $job['its']; $i++) { $nx = []; foreach ($perms as $p) for ($j = 0; $j <= count($p); $j++) { $q = $p; array_splice($q, $j, 0, [$i]); $nx[] = $q; } $perms = $nx; }
    foreach ($job['sizes'] as $n) foreach ($perms as $perm) foreach ([false, true] as $reopen) foreach ($job['pre'] as $pre) Cases::run([$n, $perm, $reopen, $pre], static function () use ($cls, $kind, $n, $perm, $reopen, $pre) {
        $S = new ItSys(['cls' => $cls, 'sizes' => [$n], 'its' => 0, 'N' => 1000, 'K' => 1000, 'order' => $n ? range(2, 2 * $n, 2) : [], 'full' => false, 'keepclone' => $reopen]); $c = $S->start(['new', $n, $pre]);
        $open = static function (int $i, int $p) use ($c) { $n = count($c->model); $c->x['it'][$i] = $it = $c->impl->getIterator(); $it->rewind(); for ($j = 0; $j < $p; $j++) $it->next(); $c->x['cur'][$i] = $p < $n ? $p : ($n ? 'e' : 'u'); };
        foreach ($perm as $i => $_) $open($i, min($i, $n - 1)); $S->step($c, ['clonemut']); $S->probe($c, false); $id = 100; $low = 1;
        foreach ($perm as $i) {
            $S->step($c, ['close', $i]);
            foreach (match ($kind) { 'seq' => [['pushFront', 1], ['insert', 1, 2], ['unset', count($c->model) > 2 ? 2 : 0]], 'map' => [['put', $low -= 2], ['put', $id++], ['del', 4]], 'set' => [['add', $low -= 2], ['add', $id++], ['remove', 4]], 'pairs' => [['push', 1], ['pop']] } as $op) { $S->step($c, $op); $S->probe($c, false); St::$transitions++; }
            foreach ($c->x['it'] as $j => $_) { $S->step($c, ['next', $j]); } $S->probe($c, false);
            if ($reopen) { $open($id, 1); $S->probe($c, false); }
        }
        $S->finish($c); St::$traces++; St::$states++;
    });
}
return [
    'jobs' => function ($tier) {
        $th = $tier === 'thorough'; $jobs = [];
        foreach (Uni::MUTABLE as $c) {
            $k = Uni::kind($c); if ($k === 'heap') continue; $hash = str_contains($c, 'Hash'); $pre = $c === 'Deque' ? ['plain', 'rot'] : ($hash ? ['plain', 'holes'] : ['plain', 'one']);
            if ($k === 'seq' || $k === 'pairs') {
                $jobs[] = ['name' => "bfs-$c", 'kind' => 'bfs', 'cls' => $c, 'sizes' => [0, 1, 3], 'pre' => $pre, 'its' => $th ? 3 : 2, 'N' => $th ? 7 : 5, 'depth' => 99, 'weight' => 20, 'bound' => 'every state (size <= ' . ($th ? 7 : 5) . ', every pair of iterator positions), every mutation and iterator step from each, to a fixed point'];
                for ($s = 0; $s < 4; $s++) $jobs[] = ['name' => "dfs-$c-$s", 'kind' => 'dfs', 'cls' => $c, 'sizes' => [0, 1, 2, 3, 4], 'pre' => $pre, 'its' => 2, 'N' => 9, 'full' => false, 'open' => 2, 'depth' => $th ? 5 : 3, 'shard' => $s, 'nshards' => 4, 'weight' => 15, 'bound' => 'every history of ' . ($th ? 5 : 3) . ' steps with two open iterators from sizes 0-4, no state merging'];
            } else {
                $jobs[] = ['name' => "bfs-$c", 'kind' => 'bfs', 'cls' => $c, 'sizes' => [0, 2], 'pre' => ['plain'], 'its' => 2, 'N' => 9, 'K' => $hash ? ($th ? 4 : 3) : ($th ? 6 : 4), 'depth' => $hash ? ($th ? 8 : 6) : 99, 'weight' => 30, 'bound' => 'every content over the key pool with every pair of iterator positions, every mutation and iterator step from each' . ($hash ? ', history depth bounded' : ', to a fixed point')];
                for ($s = 0; $s < 4; $s++) $jobs[] = ['name' => "dfs-$c-$s", 'kind' => 'dfs', 'cls' => $c, 'sizes' => [0, 1, 3, 4], 'order' => [1, 3, 0, 2], 'pre' => $pre, 'its' => 2, 'N' => 9, 'K' => 5, 'full' => false, 'open' => 2, 'depth' => $th ? 5 : 3, 'shard' => $s, 'nshards' => 4, 'weight' => 15, 'bound' => 'every history of ' . ($th ? 5 : 3) . ' steps with two open iterators, no state merging'];
                $jobs[] = ['name' => "dfs8-$c", 'kind' => 'dfs', 'cls' => $c, 'sizes' => [7, 8], 'pre' => $pre, 'its' => 1, 'N' => 20, 'K' => 10, 'full' => false, 'open' => 1, 'depth' => $th ? 4 : 3, 'collide' => $hash, 'shard' => 0, 'nshards' => 1, 'weight' => 15, 'bound' => 'histories around the growth boundary at 8 entries, colliding keys for hash tables'];
            }
            $jobs[] = ['name' => "large-$c", 'kind' => 'large', 'cls' => $c, 'th' => $th, 'two' => $hash || $th, 'sizes' => $th ? [1, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 256] : ($hash ? [4, 8, 16, 32, 33, 63, 64, 65, 128] : [1, 4, 8, 9, 16, 17, 33, 64]), 'pre' => $pre, 'weight' => 20, 'bound' => 'sizes around the growth boundaries with ten iterators open at the ends and the middle: every set of up to two removals there (and prefixes, suffixes, every third), then insertions at the end, middle and front that pack, shift or grow the storage'];
            $jobs[] = ['name' => "release-$c", 'kind' => 'release', 'cls' => $c, 'its' => $th ? 5 : 4, 'sizes' => [1, 3, 5, 8], 'pre' => ['plain', 'one', ...($hash ? ['holes'] : [])], 'weight' => 6, 'bound' => ($th ? 5 : 4) . ' iterators and a clone, the iterators released in every order, changes after each release'];
            $jobs[] = ['name' => "loops-$c", 'kind' => 'loops', 'cls' => $c, 'sizes' => $th ? [0, 1, 2, 3, 4, 5, 7, 8, 9] : [1, 2, 3, 8], 'pre' => 'plain', 'two' => true, 'weight' => 25, 'bound' => 'foreach with every pair of changes made in its body at every step'];
            if ($hash) $jobs[] = ['name' => "loopsh-$c", 'kind' => 'loops', 'cls' => $c, 'sizes' => [1, 2, 3, 4], 'pre' => 'holes', 'two' => true, 'weight' => 25, 'bound' => 'foreach with every pair of changes made in its body at every step, tables with removed entries'];
        }
        return $jobs;
    },
    'sys' => fn($job) => new ItSys($job),
    'run' => function ($job) {
        if ($job['kind'] === 'loops') { c13_loops($job); return; } if ($job['kind'] === 'release') { c13_release($job); return; } if ($job['kind'] === 'large') { c13_large($job); return; }
        $s = new ItSys($job);
        if ($job['kind'] === 'bfs') Explorer::bfs($s, $job['depth']); else Explorer::dfs($s, $job['depth'], $job['shard'], $job['nshards']);
    },
];
