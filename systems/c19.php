<?php
require_once __DIR__ . '/../lib/uni.php';
/* Malformed payloads: every one of the enumerated payloads either throws (or makes unserialize() return false) or gives a collection that
   satisfies its class invariants, equals the reference decoding where there is one, and is fully usable. */
function c19_ref(string $c, array $p): ?array { // reference decoding; null: no opinion
    $ints = static function (int $w, string $s) { if (strlen($s) % (1 << $w)) return null; $r = []; foreach (str_split($s, 1 << $w) as $x) { if ($x === '') continue; $v = unpack(['c', 'v', 'V', 'P'][$w], $x)[1]; if ($w === 1 && $v >= 32768) $v -= 65536; if ($w === 2 && $v >= 2147483648) $v -= 4294967296; $r[] = $v; } return $r; };
    if ($p === []) return [];
    switch ($c) {
        case 'IntVector': case 'SortedIntVectorSet': case 'ImmutableSortedIntSet':
            if (count($p) !== 2 || !is_int($p[0] ?? null) || !is_string($p[1] ?? null) || $p[0] < 1 || $p[0] > 4) return null; return $ints($p[0] - 1, $p[1]);
        case 'LowMemoryVector':
            if (count($p) !== 2 || !is_int($p[0] ?? null)) return null; $s = $p[1] ?? null;
            if ($p[0] === 7) return is_array($s) ? array_values($s) : null; if (!is_string($s)) return null;
            if ($p[0] === 0 || $p[0] === 1) { // packed bits / bit pairs, low ones first; the last byte is the number of unused ones
                $per = $p[0] ? 4 : 8; $w = 8 / $per; $n = strlen($s); if ($n <= 1 || ord($s[$n - 1]) >= $per) return null;
                $n = ($n - 1) * $per - ord($s[$n - 1]); $r = [];
                for ($i = 0; $i < $n; $i++) { $b = ord($s[intdiv($i, $per)]) >> ($w * ($i % $per)); $r[] = $p[0] ? [null, null, false, true][$b & 3] : (bool)($b & 1); }
                return $r;
            }
            if ($p[0] >= 2 && $p[0] <= 5) return $ints($p[0] - 2, $s);
            if ($p[0] === 6) { if (strlen($s) % 8) return null; return $s === '' ? [] : array_map(static fn($x) => unpack('e', $x)[1], str_split($s, 8)); }
            return null;
        case 'BitVector': if (count($p) !== 1 || !is_string($p[0] ?? null) || $p[0] === '') return null; return c19_bits($p[0]);
        case 'ImmutableSortedStringSet': if (count($p) !== 1 || !is_string($p[0] ?? null)) return null; return c19_strs($p[0]);
    }
    if (Uni::pairy($c)) { if (count($p) % 2) return null; $v = array_values($p); $r = []; for ($i = 0; $i < count($v); $i += 2) $r[] = [$v[$i], $v[$i + 1]]; return Uni::model($c, $r); }
    return Uni::model($c, array_values($p));
}
function c19_bits(string $s): ?array { $n = strlen($s) - 1; $w = ord($s[$n]); if ($w > 7 || ($w && !$n)) return null; $r = []; for ($i = 0; $i < $n * 8 - $w; $i++) $r[] = (bool)(ord($s[$i >> 3]) >> ($i & 7) & 1); return $r; }
function c19_strs(string $s): ?array {
    if ($s === '') return []; if (strlen($s) < 4) return null; $n = unpack('V', $s)[1]; $r = []; $o = 4;
    for ($i = 0; $i < $n; $i++) { if ($o >= strlen($s)) return null; $l = ord($s[$o++]); if ($l === 253) { if ($o + 2 > strlen($s)) return null; $l = unpack('v', $s, $o)[1]; $o += 2; } elseif ($l === 254) { if ($o + 4 > strlen($s)) return null; $l = unpack('V', $s, $o)[1]; $o += 4; } elseif ($l === 255) return null; if ($o + $l > strlen($s)) return null; $r[] = substr($s, $o, $l); $o += $l; }
    if ($o !== strlen($s)) return null; for ($i = 1; $i < count($r); $i++) if (strcmp($r[$i - 1], $r[$i]) >= 0) return null;
    return $r;
}
/* any accepted collection: invariants, exact content where known, usable */
function c19_accept($o, string $c, ?array $ref, string $what, bool $deep = false): void {
    $m = Uni::content($o);
    foreach ($m as $e) foreach (Uni::pairy($c) ? $e : [] as $_) if (count($e) !== 2) throw new Violation("$what: pair of the wrong size"); 
    foreach ($m as $e) if (!Uni::accepts($c, $e)) throw new Violation("$what: holds " . show($e));
    $m2 = Uni::model($c, $m);
    if (Uni::kind($c) !== 'heap' && !same($m2, $m)) throw new Violation("$what: not sorted and unique: " . show($m));
    if ($ref !== null && Uni::kind($c) !== 'heap' && !same($ref, $m)) throw new Violation("$what: decoded as " . show($m) . ', expected ' . show($ref));
    if ($ref !== null && Uni::kind($c) === 'heap') { $a = array_map('repr', $m); $b = array_map('repr', $ref); sort($a); sort($b); expect($b, $a, "$what: elements"); }
    Uni::views($o, $m);
    $k = 0; $fresh = static function () use ($c, &$k) { $x = Uni::sample($c, 1, 60 + $k++)[0]; return Uni::pairy($c) ? $x[0] : $x; };
    static $rot = 0; $ops = Uni::ops($c, $m, $fresh); $list = $deep ? $ops : [$ops[$rot++ % count($ops)]];
    foreach ($list as $op) { if ($deep) { if ($c === 'CachedIterable') $d = unserialize(serialize($o)); else $d = clone $o; } else $d = $o; [$exp, $m3] = Uni::apply($c, $m, $op); Uni::cmp($exp, Uni::exec($d, $op), "$what then {$op[0]}"); Uni::expectContent($d, $m3, "$what after {$op[0]}"); }
    St::outcome("$c accepted");
}
function c19_obj(string $c, string $arr): string { return 'O:' . (5 + strlen($c)) . ':"Teds\\' . $c . '":' . substr($arr, 2); }
function c19_unser(string $c, string $s, ?array $ref, bool $hasref, string $what): void {
    $g = outcome(static fn() => unserialize($s, ['allowed_classes' => ["Teds\\$c", 'Obj', 'Teds\Vector']])); St::$transitions++; St::$traces++;
    if ($g[0] === 'x') { St::outcome("$c {$g[1]}"); if (in_array($g[1], ['Error', 'ErrorException'])) throw new Violation("$what: {$g[1]}"); return; }
    if (!is_object($g[1]) || !($g[1] instanceof Teds\Collection)) { St::outcome("$c refused by unserialize"); return; }
    c19_accept($g[1], Uni::cls($g[1]), $hasref && Uni::cls($g[1]) === $c ? $ref : null, $what);
}
function c19_payload(string $c, array $p, string $what): void { c19_unser($c, c19_obj($c, serialize($p)), c19_ref($c, $p), true, $what); }
final class Early { public static $act; public static array $log = []; public array $d; public function __unserialize(array $d): void { $this->d = $d; if (self::$act) (self::$act)($d[0]); } public function __serialize(): array { return $this->d; } }
return [
    'jobs' => function ($tier) {
        $th = $tier === 'thorough'; $jobs = [];
        foreach (Uni::KIND as $c => $k) {
            $jobs[] = ['name' => "arrays-$c", 'kind' => 'arrays', 'cls' => $c, 'len' => $th ? 4 : 3, 'weight' => 15, 'bound' => 'every payload array of at most ' . ($th ? 4 : 3) . ' entries over 9 values of all types, with every small key pattern'];
            $jobs[] = ['name' => "mutate-$c", 'kind' => 'mutate', 'cls' => $c, 'all' => $th, 'weight' => 20, 'bound' => 'valid serialized strings of several contents with every truncation, every single byte deleted, and every byte replaced by ' . ($th ? 'every' : 'each of 24') . ' byte value'];
            $jobs[] = ['name' => "state-$c", 'kind' => 'state', 'cls' => $c, 'len' => $th ? 3 : 2, 'weight' => 10, 'bound' => '__set_state/fromPairs/constructor from every small array of values of all types, and repeated initialisation of live objects'];
            $jobs[] = ['name' => "orders-$c", 'kind' => 'orders', 'cls' => $c, 'len' => $th ? 6 : 4, 'weight' => 12, 'bound' => 'payloads, states, pair lists and sources with every sequence of at most ' . ($th ? 6 : 4) . ' elements over 5 (confusable, repeated, unsorted) values'];
            $jobs[] = ['name' => "early-$c", 'kind' => 'early', 'cls' => $c, 'weight' => 5, 'bound' => 'payloads in which user code sees the collection before its own data is restored, every method called on it there'];
        }
        foreach (['IntVector', 'SortedIntVectorSet', 'ImmutableSortedIntSet', 'LowMemoryVector', 'BitVector', 'ImmutableSortedStringSet'] as $c)
            for ($s = 0; $s < 4; $s++) $jobs[] = ['name' => "bytes-$c-$s", 'kind' => 'bytes', 'cls' => $c, 'len' => $th ? 6 : 4, 'shard' => $s, 'nshards' => 4, 'weight' => 30, 'bound' => 'every binary payload of at most ' . ($th ? 6 : 4) . ' bytes over a byte alphabet (plus longer regular ones) with every type tag, through __unserialize and the class-specific unserialize'];
        return $jobs;
    },
    'run' => function ($job) {
        $c = $job['cls']; $q = "Teds\\$c";
        switch ($job['kind']) {
            case 'arrays': {
                $x = new Ctx; $al = $x->vs(['N', 'T', 'i0', 'i1', 'i-1', 'd1.5', 's', "b0100", []]); if ($c !== 'ImmutableSortedStringSet') $al[] = new Obj('o'); $al[] = ['a' => 1];
                $keys = [[], [0], [1], ['k'], [-1], [0, 1], [1, 0], [0, 2], [0, 'k'], ['k', 0], ['a', 'b'], [5, 6], [0, 1, 2], [0, 1, 'k'], [2, 1, 0], [1, 2, 3], [0, 1, 2, 3], [0, 1, 2, 'z'], [3, 2, 1, 0]];
                foreach ($keys as $ks) { $n = count($ks); if ($n > $job['len']) continue; $tot = count($al) ** $n; for ($t = 0; $t < $tot; $t++) { $id = $t; $p = []; $y = $t; foreach ($ks as $k) { $p[$k] = $al[$y % count($al)]; $y = intdiv($y, count($al)); }
                    Cases::run([$ks, $t], static function () use ($c, $p) { St::$states++; c19_payload($c, $p, 'payload ' . show($p)); }); } }
                // references inside payloads
                foreach (['a:2:{i:0;i:1;i:1;R:2;}', 'a:2:{i:0;i:2;i:1;R:1;}', 'a:2:{i:0;s:1:"a";i:1;R:2;}', 'a:2:{i:0;r:1;i:1;i:5;}', 'a:1:{i:0;R:1;}', 'a:1:{i:0;r:1;}', 'a:3:{i:0;i:1;i:1;s:2:"aa";i:2;R:3;}', 'a:2:{i:0;a:1:{i:0;i:1;}i:1;R:3;}', 'a:1:{i:0;a:1:{i:0;R:2;}}', 'a:2:{i:0;i:7;i:1;a:2:{i:0;i:1;i:1;R:5;}}', 'a:2:{i:0;i:7;i:1;a:1:{i:0;R:1;}}', 'a:2:{i:0;i:7;i:1;a:1:{i:0;r:1;}}', 'a:4:{i:0;i:1;i:1;R:2;i:2;R:2;i:3;i:9;}'] as $j => $s) Cases::run(['ref', $j], static function () use ($c, $s) {
                    $t = c19_obj($c, $s); $g = outcome(static fn() => unserialize($t)); St::$transitions++; St::$traces++;
                    if ($g[0] === 'r' && $g[1] instanceof Teds\Collection) { $o = $g[1]; $n = count($o); if (Uni::kind($c) !== 'heap') { $r = []; foreach ($o as $k => $v) { if (count($r) > 99) throw new Violation('too many'); $r[] = [$k, $v]; } expect($n, count($r), 'foreach over a payload with references'); } $a = $o->values(); foreach ($a as $i => $_) $a[$i] = 'changed'; $b = $o->values(); if ($n && $b === $a) throw new Violation('values are references'); if (in_array($c, Uni::MUTABLE)) { Uni::insertOne($c, $o, Uni::sample($c, 1)[0]); $o->clear(); } unset($o, $g, $a, $b, $r, $v, $k); gc_collect_cycles(); }
                });
                return;
            }
            case 'mutate': {
                $bases = []; foreach ([0, 1, 2, 4] as $n) $bases[] = Uni::sample($c, $n); if (Uni::kind($c) === 'seq') $bases[] = Uni::sample($c, 9);
                if ($c === 'LowMemoryVector') array_push($bases, [true, null, false], [1, 2], [300, 1], [70000], [1 << 40], [1.5], ['a', 'b']);
                if ($c === 'IntVector') array_push($bases, [1, 2], [300, 1], [70000, 2]);
                $bytes = $job['all'] ? range(0, 255) : [0, 1, 2, 5, 7, 8, 127, 128, 253, 254, 255, ord('0'), ord('1'), ord('2'), ord('9'), ord(':'), ord(';'), ord('{'), ord('}'), ord('i'), ord('s'), ord('R'), ord('N'), ord('"')];
                $run = static function (string $s, string $what) use ($c) {
                    $ref = null; $has = false;
                    if (preg_match('/^O:' . (5 + strlen($c)) . ':"Teds\\\\' . $c . '":(\d+:\{.*\})$/s', $s, $mm) && !preg_match('/[rR]:\d/', $s)) { $p = outcome(static fn() => unserialize('a:' . $mm[1], ['allowed_classes' => ['Obj']])); if ($p[0] === 'r' && is_array($p[1])) { $ref = c19_ref($c, $p[1]); $has = true; } }
                    if (preg_match('/[rR]:\d/', $s)) { outcome(static function () use ($s) { $o = unserialize($s); if ($o instanceof Teds\Collection) { count($o); $o->values(); serialize($o); } }); St::$transitions++; St::$traces++; gc_collect_cycles(); return; }
                    c19_unser($c, $s, $ref, $has, $what);
                };
                foreach ($bases as $bi => $e) {
                    $s = serialize(Uni::make($c, $e)); $L = strlen($s); $from = max(0, (int)strpos($s, '{') - 4);
                    for ($i = 0; $i < $L; $i++) { Cases::run([$bi, 'cut', $i], static function () use ($run, $s, $i) { St::$states++; $run(substr($s, 0, $i), "truncated at $i"); }); Cases::run([$bi, 'del', $i], static function () use ($run, $s, $i) { $run(substr($s, 0, $i) . substr($s, $i + 1), "byte $i deleted"); }); Cases::run([$bi, 'dup', $i], static function () use ($run, $s, $i) { $run(substr($s, 0, $i + 1) . substr($s, $i), "byte $i doubled"); }); }
                    for ($i = $from; $i < $L; $i++) foreach ($bytes as $b) Cases::run([$bi, $i, $b], static function () use ($run, $s, $i, $b) { $s[$i] = chr($b); $run($s, "byte $i set to $b"); });
                    $o = Uni::make($c, $e);
                    if (method_exists($o, 'serialize')) { $s = $o->serialize(); $q = get_class($o); $dec = static function (string $t, string $what) use ($c, $q) { $g = outcome(static fn() => $q::unserialize($t)); St::$transitions++; St::$traces++; if ($g[0] === 'x') { if ($g[1] === 'Error') throw new Violation("$what: {$g[1]}"); return; } $ref = match ($c) { 'BitVector' => $t === '' ? [] : c19_bits($t), 'ImmutableSortedStringSet' => c19_strs($t), 'IntVector' => $t === '' ? [] : c19_ref($c, [ord($t[-1]), substr($t, 0, -1)]) }; c19_accept($g[1], $c, $ref, $what); };
                        for ($i = 0; $i < strlen($s); $i++) { Cases::run([$bi, 'scut', $i], static fn() => $dec(substr($s, 0, $i), "class-specific, truncated at $i")); Cases::run([$bi, 'sdel', $i], static fn() => $dec(substr($s, 0, $i) . substr($s, $i + 1), "class-specific, byte $i deleted")); foreach ($bytes as $b) Cases::run([$bi, 'sset', $i, $b], static function () use ($dec, $s, $i, $b) { $s[$i] = chr($b); $dec($s, "class-specific, byte $i set to $b"); }); } }
                }
                return;
            }
            case 'bytes': {
                $al = $c === 'ImmutableSortedStringSet' ? ["\0", "\1", "\2", "a", "b", "\xfd", "\xfe", "\xff"] : ["\0", "\1", "\2", "\7", "\x7f", "\x80", "\xff", "\x08"];
                $bodies = ['']; $cur = ['']; for ($l = 0; $l < $job['len']; $l++) { $nx = []; foreach ($cur as $s) foreach ($al as $b) $nx[] = $s . $b; $cur = $nx; $bodies = [...$bodies, ...$nx]; }
                foreach ([5, 6, 7, 8, 9, 12, 15, 16, 17, 24, 32] as $n) foreach (["\0", "\1", "\xff", "\x80"] as $f) { $bodies[] = str_repeat($f, $n); $bodies[] = str_repeat($f, $n - 1) . "\1"; $bodies[] = "\x10" . str_repeat($f, $n - 1); $b = str_repeat($f, $n); for ($i = 0; $i < $n; $i++) $b[$i] = chr($i * 3); $bodies[] = $b; }
                if ($c === 'ImmutableSortedStringSet') foreach ([[0, 253], [0, 254], [300, 253], [300, 254], [65535, 253], [65536, 254], [252, 0], [253, 253], [2, 253], [2, 254]] as [$l, $form]) foreach ([-1, 0, 1] as $d) { $h = $form === 0 ? chr($l) : ($form === 253 ? "\xfd" . pack('v', $l) : "\xfe" . pack('V', $l)); $bodies[] = $h . str_repeat('q', max(0, $l + $d)); $bodies[] = "\1a" . $h . str_repeat('q', max(0, $l + $d)); $bodies[] = $h . str_repeat('q', max(0, $l + $d)) . "\1z"; }
                $q = "Teds\\$c"; $tags = in_array($c, ['BitVector', 'ImmutableSortedStringSet']) ? [null] : range(-1, 9);
                foreach ($bodies as $i => $b) {
                    if ($i % $job['nshards'] !== $job['shard']) continue;
                    foreach ($tags as $t) { if ($t !== null && ($t < 0 || $t > 8) && strlen($b) > 2) continue;
                        Cases::run([bin2hex($b), $t], static function () use ($c, $b, $t) { St::$states++;
                            if ($c === 'ImmutableSortedStringSet') { foreach ([null, 0, 1, 2, 3, 4, 255, 65536, 4294967295, 2147483648] as $cnt) { $p = ($cnt === null ? '' : pack('V', $cnt)) . $b; c19_payload($c, [$p], 'count ' . json_encode($cnt) . ' body ' . bin2hex($b)); } }
                            else c19_payload($c, $t === null ? [$b] : [$t, $b], "tag " . json_encode($t) . ' bytes ' . bin2hex($b)); }); }
                    if (method_exists($q, 'unserialize')) Cases::run(['spec', bin2hex($b)], static function () use ($c, $q, $b) {
                        foreach ($c === 'ImmutableSortedStringSet' ? [null, 0, 1, 2, 3, 255, 4294967295] : ($c === 'IntVector' ? [null, 0, 1, 2, 3, 4, 5] : [null]) as $t) {
                            $s = $c === 'IntVector' ? $b . ($t === null ? '' : chr($t)) : ($t === null ? '' : pack('V', $t)) . $b;
                            $g = outcome(static fn() => $q::unserialize($s)); St::$transitions++; St::$traces++; if ($g[0] === 'x') { St::outcome("$c spec {$g[1]}"); if ($g[1] === 'Error') throw new Violation('Error for ' . bin2hex($s)); continue; }
                            $ref = $s === '' ? [] : match ($c) { 'BitVector' => c19_bits($s), 'ImmutableSortedStringSet' => c19_strs($s), 'IntVector' => c19_ref($c, [ord($s[-1]), substr($s, 0, -1)]) }; c19_accept($g[1], $c, $ref, 'class-specific ' . bin2hex($s));
                        }
                        if ($c === 'BitVector') { $o = $q::fromBinaryString($b); $r = []; for ($i = 0; $i < strlen($b) * 8; $i++) $r[] = (bool)(ord($b[$i >> 3]) >> ($i & 7) & 1); c19_accept($o, $c, $r, 'fromBinaryString ' . bin2hex($b)); }
                    });
                }
                return;
            }
            case 'state': {
                $x = new Ctx; $al = $x->vs(['N', 'T', 'i0', 'i1', 'd1.5', 's', 'sa', [], ['i1'], ['i1', 'i2'], ['i1', 'i2', 'i3'], 'o1']); $al[] = ['a' => 1, 'b' => 2]; $al[] = [1 => 'x', 0 => 'y']; $al[] = [0 => 'x', 5 => 'y']; $ref = 5; $al[] = [&$ref, 6]; static $keep; $keep = [&$ref];
                $q = "Teds\\$c"; $keys = [[], [0], ['k'], [3], [0, 1], [1, 0], ['k', 0], [0, 1, 2]];
                foreach ($keys as $ks) { $n = count($ks); if ($n > $job['len']) continue; $tot = count($al) ** $n; for ($t = 0; $t < $tot; $t++) { $p = []; $y = $t; foreach ($ks as $k) { $p[$k] = $al[$y % count($al)]; $y = intdiv($y, count($al)); }
                    Cases::run([$ks, $t], static function () use ($c, $q, $p) { St::$states++;
                        $pairs = true; foreach ($p as $e) if (!is_array($e) || array_keys($e) !== [0, 1]) $pairs = false; $ok = true; foreach ($p as $e) if (!Uni::accepts($c, $e)) $ok = false;
                        $try = static function (string $w, callable $f, ?array $ref) use ($c) { $g = outcome($f); St::$transitions++; St::$traces++; if ($g[0] === 'x') { St::outcome("$c $w {$g[1]}"); if ($g[1] === 'Error') throw new Violation("$w: {$g[1]}"); return; } c19_accept($g[1], $c, $ref, $w); };
                        $before = repr($p);
                        if (Uni::pairy($c)) { $ref = $pairs ? Uni::model($c, array_values($p)) : null; $try('__set_state', static fn() => $q::__set_state($p), $ref); $try('fromPairs', static fn() => $q::fromPairs($p), $ref); $try('fromPairs(gen)', static fn() => $q::fromPairs((static function () use ($p) { yield from $p; })()), $ref); $try('fromPairs(arrayiterator)', static fn() => $q::fromPairs(new ArrayIterator($p)), $ref); }
                        else { $ref = $ok ? Uni::model($c, array_values($p)) : null; $try('__set_state', static fn() => $q::__set_state($p), $ref); $try('constructor', static fn() => new $q($p), $ref); $try('constructor(gen)', static fn() => new $q((static function () use ($p) { yield from $p; })()), $ref); }
                        expect($before, repr($p), 'input array');
                        // initialising a live object again must not change it
                        $e = Uni::sample($c, 2); $o = Uni::make($c, $e); $m = Uni::model($c, $e); $g = outcome(static fn() => $o->__unserialize($p)); if ($g[0] !== 'x') throw new Violation('__unserialize() on a live object was accepted'); Uni::expectContent($o, $m, 'after __unserialize() on a live object'); $g = outcome(static fn() => $o->__construct($p)); if ($g[0] !== 'x') throw new Violation('__construct() on a live object was accepted'); Uni::expectContent($o, $m, 'after __construct() on a live object');
                    }); } }
                return;
            }
            case 'orders': { // every order and repetition of elements: what comes out is what the sequence of insertions gives, or the payload is refused
                $al = match (true) { $c === 'BitVector' => [true, false], in_array($c, ['IntVector', 'SortedIntVectorSet', 'ImmutableSortedIntSet']) => [3, -2, 0, 127, -128], $c === 'ImmutableSortedStringSet' => ['', 'a', 'b', 'aa', "a\0"], default => [1, 1.0, '1', 0, 'a'] };
                $enc = static function (array $l) use ($c): array { // [payload, class-specific string or null] for this exact element order
                    if ($c === 'BitVector') { $b = ''; foreach (array_chunk($l, 8) as $ch) { $v = 0; foreach ($ch as $i => $x) $v |= (int)$x << $i; $b .= chr($v); } $b .= chr((8 - count($l) % 8) % 8); return [$l ? [$b] : [], $l ? $b : '']; }
                    if (in_array($c, ['IntVector', 'SortedIntVectorSet', 'ImmutableSortedIntSet'])) { $b = ''; foreach ($l as $x) $b .= chr($x & 255); return [$l ? [1, $b] : [], $c === 'IntVector' && $l ? "$b\1" : null]; }
                    if ($c === 'ImmutableSortedStringSet') { $b = pack('V', count($l)); foreach ($l as $x) $b .= chr(strlen($x)) . $x; return [$l ? [$b] : [], $l ? $b : '']; }
                    if ($c === 'LowMemoryVector') return [$l ? [7, $l] : [], null];
                    if (Uni::pairy($c)) { $p = []; foreach ($l as $i => $x) { $p[] = $x; $p[] = "v$i"; } return [$p, null]; }
                    return [$l, null];
                };
                $q = "Teds\\$c"; $cur = [[]];
                for ($n = 0; $n <= $job['len'] + ($c === 'BitVector' ? 5 : 0); $n++) {
                    foreach ($cur as $l) Cases::run($l, static function () use ($l, $c, $q, $enc, $n) { St::$states++; [$p, $spec] = $enc($l); $w = 'the sequence ' . show($l); c19_payload($c, $p, "payload of $w");
                        if ($c === 'ImmutableSortedStringSet' && $l) foreach ([-1, 1] as $d) { $b = pack('V', count($l) + $d) . substr($spec, 4); c19_payload($c, [$b], "count off by $d in $w"); $z = substr($spec, 0, 4); foreach ($l as $i => $x) $z .= ($i % 2 ? "\xfd" . pack('v', strlen($x)) : "\xfe" . pack('V', strlen($x))) . $x; c19_payload($c, [$z], "long length forms of $w"); }
                        if ($spec !== null && method_exists($q, 'unserialize')) { $g = outcome(static fn() => $q::unserialize($spec)); if ($g[0] === 'r') c19_accept($g[1], $c, c19_ref($c, $p), "class-specific $w"); }
                        $e = []; foreach ($l as $i => $x) $e[] = Uni::pairy($c) ? [$x, "v$i"] : $x; $m = Uni::model($c, $e);
                        if ($n < 4) foreach (Uni::ways($c) as $way) if (!in_array($way, ['churn', 'front', 'rot', 'rotb'])) c19_accept(Uni::make($c, $e, $way), $c, $m, "$way from $w", $n < 3);
                    });
                    $nx = []; foreach ($cur as $l) foreach ($al as $x) $nx[] = [...$l, $x]; $cur = $nx;
                }
                return;
            }
            case 'early': {
                $q = "Teds\\$c"; $body = Uni::pairy($c) ? static fn($e) => 'i:0;s:1:"k";i:1;' . $e . 'i:2;s:1:"l";i:3;i:4;' : static fn($e) => 'i:0;' . $e . 'i:1;i:4;'; $cnt = Uni::pairy($c) ? 4 : 2;
                if (in_array($c, ['IntVector', 'SortedIntVectorSet', 'ImmutableSortedIntSet'])) { $body = static fn($e) => 'i:0;' . $e . 'i:1;s:1:"a";'; } if ($c === 'LowMemoryVector') $body = static fn($e) => 'i:0;i:7;i:1;a:2:{i:0;' . $e . 'i:1;i:4;}';
                if (in_array($c, ['BitVector', 'ImmutableSortedStringSet'])) { $cnt = 1; $body = static fn($e) => 'i:0;' . $e; }
                $s = 'O:' . strlen($q) . ':"' . $q . '":' . $cnt . ':{' . $body('O:5:"Early":1:{i:0;r:1;}') . '}';
                $acts = ['nothing' => static fn($o) => 0, 'foreach' => static function ($o) { foreach ($o as $k => $v) { } }, 'cast' => static fn($o) => (array)$o, 'export' => static fn($o) => var_export($o, true), 'dump' => static function ($o) { ob_start(); var_dump($o); ob_end_clean(); }, 'json' => static fn($o) => json_encode($o), 'ser' => static fn($o) => serialize($o), 'clone' => static fn($o) => clone $o, 'cmp' => static fn($o) => $o == $o, 'gc' => static fn($o) => gc_collect_cycles(), 'keep' => static function ($o) { Early::$log[] = $o; }, 'iter' => static function ($o) { if ($o instanceof IteratorAggregate) { Early::$log[] = $it = $o->getIterator(); $it->valid(); } },
                    'isset' => static fn($o) => isset($o[0]), 'get0' => static fn($o) => $o[0], 'set0' => static function ($o) { $o[0] = 1; }, 'append' => static function ($o) { $o[] = 1; }, 'unset0' => static function ($o) { unset($o[0]); }, 'ctor' => static fn($o) => $o->__construct([1]), 'ctor0' => static fn($o) => $o->__construct([]), 'unser' => static fn($o) => $o->__unserialize([]), 'unser2' => static fn($o) => $o->__unserialize([1, 2])];
                $rc = new ReflectionClass($q); foreach ($rc->getMethods() as $mt) if (!$mt->isStatic() && !in_array($mt->name, ['__construct', '__unserialize', 'getIterator', 'reserve', 'setSize'])) { $n = $mt->name; $argc = $mt->getNumberOfRequiredParameters(); $sets = [[]]; foreach ([0, 1, 'x', true] as $a) { $l = []; for ($i = 0; $i < max($argc, 1); $i++) $l[] = $mt->getParameters() && ($mt->getParameters()[min($i, count($mt->getParameters()) - 1)]->getType() . '') === 'callable' ? static fn($x) => $x : $a; $sets[] = $l; } foreach ($sets as $j => $args) if (count($args) >= $argc) $acts["$n$j"] = static fn($o) => $o->$n(...$args); }
                foreach (['setSize', 'reserve'] as $n) if ($rc->hasMethod($n)) foreach ([0, 1, 5] as $a) $acts["$n-$a"] = static fn($o) => $o->$n($a);
                foreach ($acts as $n1 => $a1) foreach ([null, ...array_keys($acts)] as $n2) Cases::run([$n1, $n2], static function () use ($c, $s, $a1, $n2, $acts) {
                    St::$states++; Early::$log = []; Early::$act = static function ($o) use ($a1, $n2, $acts) { Early::$log['ran'] = 1; outcome(static fn() => $a1($o)); if ($n2 !== null) outcome(static fn() => $acts[$n2]($o)); };
                    $g = outcome(static fn() => unserialize($s)); Early::$act = null; St::$transitions++; St::$traces++;
                    if (!isset(Early::$log['ran'])) throw new HarnessError('early access not reached');
                    if ($g[0] === 'r' && is_object($g[1])) { $o = $g[1]; $n = count($o); $v = $o->values(); if ($n !== count($v)) throw new Violation('count() and values() disagree'); foreach ($v as $e) if (is_object($e) && !$e instanceof Early && !$e instanceof Teds\Collection) throw new Violation('strange element'); $i = 0; $d = $c === 'CachedIterable' ? $o : clone $o; foreach ($d as $_) if (++$i > $n) throw new Violation('foreach too long'); expect($n, $i, 'foreach count'); if (in_array($c, Uni::MUTABLE)) { Uni::insertOne($c, $o, Uni::sample($c, 1)[0]); $o->clear(); expect(0, count($o), 'clear'); } unset($o, $v, $d, $e, $_); }
                    unset($g); Early::$log = []; gc_collect_cycles(); St::outcome("$c early");
                });
                return;
            }
        }
    },
];
