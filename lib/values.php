<?php
require_once __DIR__ . '/model.php';
enum VEn { case A; case B; }
class VB { public $p = 1; }
/* A universe of values built to be easily confused with one another; [name, value], several representations of equal values. */
function universe(bool $big): array {
    $o1 = new Obj('u1'); $o2 = new Obj('u2'); $s1 = new stdClass; $s2 = new VB; $ref = 1; $ref2 = 'x'; $ref3 = [1, 2]; $dyn = implode('', ['a', 'b']);
    $hole = [0, 1, 2, 3]; unset($hole[1]); $packed = [1, 2]; $hashed = ['z' => 0, 0 => 1, 1 => 2]; unset($hashed['z']); $emptied = [1]; unset($emptied[0]); $emptyh = ['a' => 1]; unset($emptyh['a']);
    $u = [
        ['null', null], ['false', false], ['true', true], ['0', 0], ['1', 1], ['-1', -1], ['2', 2], ['max', PHP_INT_MAX], ['min', PHP_INT_MIN], ['2^53', 1 << 53], ['2^53+1', (1 << 53) + 1], ['-2^53-1', -(1 << 53) - 1],
        ['0.0', 0.0], ['-0.0', -0.0], ['1.0', 1.0], ['0.5', 0.5], ['-0.5', -0.5], ['1.5', 1.5], ['2^53f', 9007199254740992.0], ['2^53+2f', 9007199254740994.0], ['2^63f', 9223372036854775808.0], ['-2^63f', -9223372036854775808.0], ['1e300', 1e300], ['INF', INF], ['-INF', -INF], ['NAN', NAN], ['-NAN', -NAN], ['tiny', 5e-324],
        ['""', ''], ['"0"', '0'], ['"1"', '1'], ['"10"', '10'], ['"1.0"', '1.0'], ['"a"', 'a'], ['"A"', 'A'], ['"ab"', 'ab'], ['"ab"dyn', $dyn], ['"\0"', "\0"], ['"a\0"', "a\0"], ['"a\0b"', "a\0b"], ['"\xff"', "\xff"], ['"0a"', '0a'], ['"1b"', '1b'], ['"9"', '9'],
        ['[]', []], ['[]emptied', $emptied], ['[]emptyh', $emptyh], ['[0]', [0]], ['[null]', [null]], ['["0"]', ['0']], ['[0.0]', [0.0]], ['[-0.0]', [-0.0]], ['[NAN]', [NAN]], ['[1=>0]', [1 => 0]], ['["a"=>0]', ['a' => 0]], ['[1,2]', $packed], ['[1,2]hash', $hashed], ['[2,1]', [2, 1]], ['[1=>2,0=>1]', [1 => 2, 0 => 1]], ['[1,2]ref', [&$ref, 2]], ['[[NAN]]', [[NAN]]], ['[[]]', [[]]],
        ['obj1', $o1], ['obj2', $o2], ['std', $s1], ['VB', $s2], ['enumA', VEn::A], ['enumB', VEn::B], ['[obj1]', [$o1]], ['[obj2]', [$o2]], ['stdin', STDIN], ['stderr', STDERR],
    ];
    if ($big) $u = [...$u,
        ['-2', -2], ['2^62', 1 << 62], ['-2^62', -(1 << 62)], ['2^62f', (float)(1 << 62)], ['max-1', PHP_INT_MAX - 1], ['min+1', PHP_INT_MIN + 1], ['nextbelow2^63', 9223372036854774784.0], ['1e-300', 1e-300], ['-1e300', -1e300],
        ['long', str_repeat('q', 70)], ['long2', str_repeat('q', 69) . 'r'], ['"00"', '00'], ['"-1"', '-1'], ['" 1"', ' 1'], ['"1e1"', '1e1'], ['"é"', 'é'],
        ['hole', $hole], ['[0=>0,2=>2,3=>3]', [0 => 0, 2 => 2, 3 => 3]], ['[-1=>0]', [-1 => 0]], ['[max=>0]', [PHP_INT_MAX => 0]], ['["aa"=>0]', ['aa' => 0]], ['["b"=>0]', ['b' => 0]], ['["a"=>1]', ['a' => 1]], ['["a"=>0,"b"=>1]', ['a' => 0, 'b' => 1]], ['["b"=>1,"a"=>0]', ['b' => 1, 'a' => 0]], ['[0,"a"=>0]', [0, 'a' => 0]], ['["a"=>0,0]', ['a' => 0, 0 => 0]], ['["x"]ref', [&$ref2]], ['["x"]', ['x']], ['[[1,2]]ref', [&$ref3]], ['[[1,2]]', [[1, 2]]], ['[1,2,3]', [1, 2, 3]], ['[[[]]]', [[[]]]], ['[false]', [false]], ['[0.5]', [0.5]], ['[NAN,1]', [NAN, 1]], ['[1,NAN]', [1, NAN]],
        ['closure', static fn() => 1], ['ArrayObject', new ArrayObject([1])], ['vector', new Teds\Vector([1])], ['obj3', new Obj('u3')]];
    static $keep; $keep[] = [&$ref, &$ref2, &$ref3];
    return $u;
}

/* arrays whose keys are every ordered selection of 2..$L of 5 keys; the values follow the key, the position, or neither */
function array_orders(int $L): array {
    $ks = [0, 1, 'a', 'b', -5]; $all = [];
    $rec = static function (array $p) use (&$rec, &$all, $ks, $L) {
        if (count($p) >= 2) { $a = $b = $c = []; foreach ($p as $i => $k) { $a[$k] = array_search($k, $ks, true); $b[$k] = $i; $c[$k] = 0; } $all[] = $a; $all[] = $b; $all[] = $c; }
        if (count($p) < $L) foreach ($ks as $k) if (!in_array($k, $p, true)) $rec([...$p, $k]);
    };
    $rec([]); return $all;
}
const ARRAY_SHAPES = ['packed', 'int', 'str', 'mixed', 'hole', 'string'];
/* an array (or string) of $n entries, itself, then every rotation, transposition, single-key and single-value change, truncation and extension of it */
function array_alts(int $n, string $shape): array {
    $mk = static function (array $e) use ($shape) {
        $r = $shape === 'hole' ? [0, 0, 0] : [];
        foreach ($e as [$k, $v]) { if ($shape === 'packed') $r[] = $v; elseif ($shape === 'string') $r[] = chr(64 + abs($v)); else $r[$shape === 'int' ? $k * 7 - 9 : ($shape === 'str' ? "k$k" : ($shape === 'hole' ? $k + 3 : ($k % 2 ? $k : "m$k")))] = $v; }
        if ($shape === 'hole') unset($r[0], $r[1], $r[2]);
        return $shape === 'string' ? implode('', $r) : $r;
    };
    $e = []; for ($i = 0; $i < $n; $i++) $e[] = [$i, $i % 5]; $alts = [$mk($e), $mk($e), $mk([...$e, [$n, 0]]), $mk(array_slice($e, 1)), $mk(array_slice($e, 0, -1)), $mk(array_reverse($e))];
    for ($i = 0; $i < $n; $i++) {
        $alts[] = $mk([...array_slice($e, $i), ...array_slice($e, 0, $i)]);
        $x = $e; $x[$i][1] = 9; $alts[] = $mk($x); $x[$i][1] = -9; $alts[] = $mk($x); $x = $e; $x[$i][0] = 50; $alts[] = $mk($x); $x[$i][1] = 9; $alts[] = $mk($x);
        for ($j = $i + 1; $j < $n; $j++) { $x = $e; [$x[$i], $x[$j]] = [$x[$j], $x[$i]]; $alts[] = $mk($x); if (($i + $j) % 3 === 0) { $x = $e; [$x[$i][1], $x[$j][1]] = [$x[$j][1], $x[$i][1]]; $alts[] = $mk($x); $x = $e; $x[$i][1] = 9; $x[$j][1] = -9; $alts[] = $mk($x); } }
    }
    return $alts;
}
