_S="Sampled executions of the real code compiled from the working tree under a simulated kernel (descriptors, files, sockets, processes, clock, allocator) with injected faults; a clean batch is evidence, not proof. Trusted: sim/ (kernel model), the scenario's reference model."
CLAIMED={p:_S for p in "C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20 C21 C22 C23".split()}
_P="Pure function of its argument: no concurrency, time, I/O, allocation history or other party for it to depend on, so a simulator has nothing to schedule or to break; deciding it is input enumeration, not this technique."
_L="Not built yet."
NA={p:_P for p in "C30 C31 C32 C33 C34".split()}
for i in range(1,24):
    p="C%02d"%i
    if p not in CLAIMED: NA[p]=_L
