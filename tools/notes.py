NA={}
TECH={'*':'TLA+ trace validation: executions of the real code, recorded on generated worlds and histories, are checked by TLC against the explicit specification'}
T=' Sampled inputs (seeded); the verdict on each comes from exact integer arithmetic in TLC. Trusted: TLC, the driver that records the calls, the generators for reaching the interesting cases.'
NOTE={p['id']:'Every recorded execution was a behaviour of the specification.'+T for p in props}
