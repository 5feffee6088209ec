<?php
/* Every history the other properties explore, run on a build in which undefined behaviour is made observable: UBSan traps
   (shifts, overflows, null members, misaligned or out of range accesses), ZEND_ASSERT / ZEND_UNREACHABLE (which a release build
   compiles to __builtin_unreachable()) abort, AddressSanitizer watches the heap.  Functional mismatches are not this property's business. */
const SKIP_QUICK = ['c01' => '/^dfs-[2-7]/', 'c17' => '/^types/', 'c03' => '/^dfs-[2-7]/', 'c04' => '/^dfs-[2-7]/', 'c05' => '/^dfs-|^size-(3|7|12)/', 'c06' => '/^slots-.*-AB|^patterns-/', 'c10' => '/^dfs-[2-7]/', 'c12' => '/^inter/', 'c13' => '/^loops-|^dfs8|^dfs-.*-[123]$/',
    'c15' => '/^unique/', 'c18' => '/^after-|^content-(CachedIterable|ImmutableIterable|MutableIterable|StrictTreeMap|StrictHashMap)/', 'c19' => '/^orders-|^bytes-.*-[13]$/', 'c20' => '/^ops2/', 'c24' => '/^sizes/', 'c21' => '/^dtorw-|^handler-|^helper-|^fiber-|^cb-/', 'c22' => '/^calls-.*-[34]$/'];
$sub = function ($s) { return $GLOBALS["subsystems"][$s] ??= require __DIR__ . "/$s.php"; };
return [
    'jobs' => function ($tier) use ($sub) {
        $jobs = [];
        for ($i = 1; $i <= 24; $i++) {
            $s = sprintf('c%02d', $i);
            foreach ($sub($s)['jobs']('quick') as $j) {
                if (($j['mode'] ?? 'asan') !== 'asan') continue;
                unset($j['mode']);
                if ($tier !== 'thorough' && isset(SKIP_QUICK[$s]) && preg_match(SKIP_QUICK[$s], $j['name'])) continue;
                if ($tier !== "thorough" && (preg_match("/^scale-(ops|ctor|copy|life|views|mem)-.*-(1025|4097|65537|512)$/", $j["name"]) || str_starts_with($j["name"], "scale-mem") || $s === "c23" && str_starts_with($j["name"], "scale-"))) continue;
                $jobs[] = ['name' => strtoupper($s) . '/' . $j['name'], 'mode' => 'ub', 'sys' => $s, 'job' => $j, 'weight' => $j['weight'] ?? 1, 'bound' => strtoupper($s) . ': ' . ($j['bound'] ?? 'see that property')];
            }
        }
        return $jobs;
    },
    'sys' => fn($job) => $sub($job['sys'])['sys']($job['job']),
    'run' => function ($job) use ($sub) {
        try { $sub($job['sys'])['run']($job['job']); }
        catch (HarnessError $e) { throw $e; }
        catch (Throwable $e) { St::$capped = true; St::note('functional mismatch, decided by the other checks: ' . $job['name']); }
    },
];
