# What each check explores.  scen: scenario[:weight].
ASSUMPTIONS = [
    'The simulated kernel (sockets, epoll, eventfd, signalfd, files, clocks, threads, mutexes, condition variables) behaves as Linux does for the calls the server makes.',
    'Sequentially consistent memory at the granularity of the instrumented accesses; weaker orderings are only seen as data races.',
    'A sample of schedules and faults is explored, drawn from the seed; absence of a violation is evidence, not proof.',
]
COMPONENTS = {
    'real': ['all of /repo/src and /repo/cybozu, compiled with instrumentation (main, reactor, workers, protocol parsers, hash map, objects, temporary-file logic, GC, replication, counter, logger, config)'],
    'stub': ['kernel: network, disk, clocks, signals, threads, synchronisation primitives', 'memory allocator (checked arena)', 'clients, keepalived (ownership of the virtual address), siphash seed source'],
}
CHECKS = {
    'C01': dict(scen=['c01']),
    'C02': dict(scen=['c02']),
    'C03': dict(scen=['c03']),
    'C04': dict(scen=['c04']),
    'C05': dict(scen=['c05']),
    'C06': dict(scen=['c06']),
    'C07': dict(scen=['c07']),
    'C08': dict(scen=['c08']),
    'C09': dict(scen=['c09']),
    'C10': dict(scen=['c10']),
    'C11': dict(scen=['c11']),
    'C12': dict(scen=['c12']),
    'C13': dict(scen=['c13']),
    'C14': dict(scen=['c14'], technique='happens-before race detection and checked memory during seeded search over schedules, workloads and faults of the real server in a simulated kernel'),
    'C15': dict(scen=['c15']),
    'C16': dict(scen=['c16']),
    'C17': dict(scen=['c17']),
    'C18': dict(scen=['c18']),
    'C19': dict(scen=['c19']),
    'C20': dict(scen=['c20']),
    'C21': dict(scen=['c21']),
    'C22': dict(scen=['c22']),
    'C23': dict(scen=['c23']),
}
