GEN="property-based testing: "
T={
'C01':(GEN+'generated geometries vs. an independent tiling model','Holds on all generated geometries (1-4 dims, small block counts); bounded sizes.'),
'C02':(GEN+'generated geometries, differential between all ways to obtain a block','Holds on all generated graphs; identifiers beyond 2^53 are not reached.'),
'C03':(GEN+'model-based schedules with a conflict invariant','Explores generated schedules incl. failures; within-task order taken from the graph, conflicts from geometry.'),
'C04':(GEN+'model-based schedules of task graphs with a geometric order oracle','Explores generated task graphs and schedules.'),
'C05':(GEN+'all pairs of blocks of generated graphs vs. geometric overlap','Exhaustive over block pairs of each generated graph.'),
'C06':(GEN+'model-based schedules vs. a reference scheduler model','Explores generated task graphs and schedules to completion.'),
'C07':(GEN+'model-based schedules with injected failures vs. a reference model','Explores generated failure assignments and schedules.'),
'C08':(GEN+'model-based operation histories, state compared after every operation','Compares all counters after every operation of generated histories.'),
'C09':(GEN+'generated sets of finished blocks and interrupted-and-resumed runs vs. a reference model','Scheduler, sequential server and simulated distributed server; the missing post-check is a known finding.'),
'C10':(GEN+'generated block/outcome/exception/reply sequences against a real client with a simulated connection','All messages a client sends are compared with the planned outcomes.'),
'C11':(GEN+'deterministic simulation of server, network and workers under generated interleavings; ownership model','Owns the schedule: real server code, simulated streams and processes; includes rogue and duplicate returns.'),
'C12':(GEN+'deterministic simulation under generated interleavings and deaths (bounded liveness), plus real runs with injected faults','Liveness is bounded: a run has to end within a number of scheduling steps; hang limits in real runs are generous.'),
'C13':(GEN+'model-based histories of pool operations with simulated processes (also concurrent resizes), simulated and real runs','Pool histories are compared with a model after every operation.'),
'C14':(GEN+'generated messages over real TCP through a proxy that fragments and cuts the stream at generated bytes; servers created with injected failures to listen and detected addresses','Real sockets on loopback; up to 1 MB messages.'),
'C15':(GEN+'operation histories on contexts vs. a dictionary, round-trip through the environment','Round-trips within the process and through another process.'),
'C16':(GEN+'generated regions and grids vs. a brute-force search; metamorphic shifts','Coordinates up to 2^40, 1-4 dimensions.'),
'C17':(GEN+'differential: real distributed runs with injected faults vs. sequential runs of the same tasks','Real processes; kill points are placed before, within and after the processing of generated blocks.'),
'C18':(GEN+'invariant over the notifications of simulated, sequential and real runs','Order, multiplicity and content of all notifications.'),
'C19':(GEN+'generated callables (forms, signatures, captured state) run by real workers','Real processes with the fork start method.'),
'C20':(GEN+'generated output over generated channels by real workers, compared line by line with the log files; generated sequences of redirections','Real processes; killed workers included.'),
'C21':(GEN+'generated notification histories and simulated runs, printed text parsed and compared with the model','Real tqdm output is parsed.'),
'C22':(GEN+'generated huge volumes vs. closed-form geometry within a CPU and memory budget; dense graphs of many tasks','Up to 10^15 blocks; budgets are orders of magnitude above the need.'),
'C23':(GEN+'generated histories of sequential and real distributed runs in one process vs. a reference model per run','Up to four runs of up to two task graphs per process.'),
}
