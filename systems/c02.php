<?php require_once __DIR__ . '/../lib/listjobs.php'; return list_def('Deque');
