<?php
/* php main.php <PROP> list <tier>          -> JSON list of jobs
   php main.php <PROP> run <job json>       -> RESULT line; VIOL line and exit 3 on a violation
   php main.php <PROP> replay <job json> <path or case json>  */
require __DIR__ . '/core.php';
[, $prop, $mode] = $argv;
$file = __DIR__ . '/../systems/' . strtolower($prop) . '.php';
$def = require $file;   // ['jobs' => fn($tier), 'run' => fn($job)]
if ($mode === 'list') { echo json_encode($def['jobs']($argv[3])), "\n"; exit(0); }
$job = json_decode($argv[3], true);
$t0 = microtime(true);
if (getenv('VERIF_TRACE')) Trace::open(getenv('VERIF_TRACE'));
set_time_limit((int)(getenv('VERIF_ALARM') ?: 30));
try {
    if ($mode === 'replay') {
        $what = json_decode($argv[4], true);
        if (isset($what['path'])) { Explorer::replay($def['sys']($job), $what['path']); }
        else { Cases::$only = json_encode($what['case']); set_time_limit(0); $def['run']($job); }
    } else {
        $def['run']($job);
    }
} catch (Violation $e) {
    $what = Explorer::$current !== null && Cases::$current === null ? ['path' => Explorer::$current] : ['case' => Cases::$current];
    echo 'VIOL ', json_encode(['msg' => $e->getMessage(), 'at' => $what, 'stats' => St::dump()], JSON_PARTIAL_OUTPUT_ON_ERROR | JSON_INVALID_UTF8_SUBSTITUTE), "\n";
    exit(3);
} catch (HarnessError $e) {
    fwrite(STDERR, (string)$e); exit(9);
} catch (\Throwable $e) {
    $what = Explorer::$current !== null && Cases::$current === null ? ['path' => Explorer::$current] : ['case' => Cases::$current];
    echo 'VIOL ', json_encode(['msg' => 'unexpected ' . get_class($e) . ': ' . $e->getMessage() . ' at ' . basename($e->getFile()) . ':' . $e->getLine(), 'at' => $what, 'stats' => St::dump()], JSON_PARTIAL_OUTPUT_ON_ERROR | JSON_INVALID_UTF8_SUBSTITUTE), "\n";
    exit(3);
}
set_time_limit(0);
echo 'RESULT ', json_encode(St::dump() + ['secs' => round(microtime(true) - $t0, 2)], JSON_PARTIAL_OUTPUT_ON_ERROR | JSON_INVALID_UTF8_SUBSTITUTE), "\n";
