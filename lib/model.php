<?php
/* Independent reference definitions of the two orders/equalities the library documents. */
function m_rank($v): int {
    if ($v === null) return 0; if ($v === false) return 1; if ($v === true) return 2;
    if (is_int($v) || is_float($v)) return 3; if (is_string($v)) return 4; if (is_array($v)) return 5; if (is_object($v)) return 6; return 7;
}
/* exact comparison of an int with a float, without rounding the int */
function m_int_float(int $i, float $f): int {
    if (is_nan($f)) return -1;
    if ($f >= 9223372036854775808.0) return -1;
    if ($f < -9223372036854775808.0) return 1;
    $t = (int)$f;                     // truncation toward zero, exact here
    if ($i !== $t) return $i < $t ? -1 : 1;
    $frac = $f - (float)$t;
    return $frac > 0 ? -1 : ($frac < 0 ? 1 : 0);
}
function mcmp($a, $b): int {
    $ra = m_rank($a); $rb = m_rank($b);
    if ($ra !== $rb) return $ra <=> $rb;
    switch ($ra) {
        case 0: case 1: case 2: return 0;
        case 3:
            if (is_int($a) && is_int($b)) return $a <=> $b;
            if (is_float($a) && is_float($b)) { $na = is_nan($a); $nb = is_nan($b); if ($na || $nb) return $na <=> $nb; return $a <=> $b; }
            if (is_int($a)) { $c = m_int_float($a, $b); return $c ?: -1; }
            $c = m_int_float($b, $a); return $c ? -$c : 1;
        case 4:
            $n = min(strlen($a), strlen($b));
            for ($i = 0; $i < $n; $i++) if ($a[$i] !== $b[$i]) return ord($a[$i]) <=> ord($b[$i]);
            return strlen($a) <=> strlen($b);
        case 5:
            if (count($a) !== count($b)) return count($a) <=> count($b);
            $ka = array_keys($a); $kb = array_keys($b);
            foreach ($ka as $i => $k) {
                $l = $kb[$i];
                if (is_int($k) !== is_int($l)) return is_int($k) ? -1 : 1;
                if (is_int($k)) { if ($k !== $l) return ($k ^ PHP_INT_MIN) <=> ($l ^ PHP_INT_MIN); }
                elseif ($k !== $l) { if (strlen($k) !== strlen($l)) return strlen($k) <=> strlen($l); return strcmp($k, $l) <=> 0; }
                $c = mcmp($a[$k], $b[$l]); if ($c) return $c;
            }
            return 0;
        case 6:
            if ($a === $b) return 0;
            $c = strcmp(get_class($a), get_class($b)) <=> 0; return $c ?: (spl_object_id($a) <=> spl_object_id($b));
        default: return get_resource_id($a) <=> get_resource_id($b);
    }
}
/* === with NAN equal to itself at any array depth */
function meq($a, $b): bool {
    if (is_float($a) && is_float($b) && is_nan($a) && is_nan($b)) return true;
    if (is_array($a) && is_array($b)) {
        if (count($a) !== count($b) || array_keys($a) !== array_keys($b)) return false;
        foreach ($a as $k => $v) if (!meq($v, $b[$k])) return false;
        return true;
    }
    return $a === $b;
}
/* values easily mistaken for one of $vals: wrapped at each storage width, of another type, or sharing a prefix */
function confusable(array $vals): array {
    $r = [];
    foreach ($vals as $v) {
        if (is_int($v)) { foreach ([8, 16, 32] as $b) foreach ([1, -1] as $s) { $x = $v + $s * (1 << $b); if (is_int($x)) $r[] = $x; } $x = $v ^ PHP_INT_MIN; $r[] = $x; $r[] = (float)$v; $r[] = (string)$v; if ($v === 0) $r[] = -0.0; }
        elseif (is_float($v)) { if (abs($v) < 1e15) $r[] = (int)$v; $r[] = (string)$v; $r[] = -$v; }
        elseif (is_bool($v)) { $r[] = (int)$v; $r[] = !$v; }
        elseif (is_string($v)) { if (strlen($v) < 300) { $r[] = $v . "\0"; $r[] = $v . 'x'; $r[] = substr($v, 0, -1); if (is_numeric($v)) $r[] = $v + 0; } }
        elseif (is_array($v)) { $r[] = [...array_values($v), 'x']; $r[] = [$v]; }
    }
    $seen = []; $o = []; foreach ($r as $x) { $k = repr($x); if (!isset($seen[$k])) { $seen[$k] = 1; $o[] = $x; } } return $o;
}
