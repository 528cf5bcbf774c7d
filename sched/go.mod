module verif.local/sched

go 1.23
