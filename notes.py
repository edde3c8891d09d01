COMMON = ("Assumes: seeded sampling of schedules and faults (a clean batch is evidence, not proof); single statements on vector "
          "elements are atomic; a shared read sees the latest write. Trusts sim/instr, sim/simrt and the oracle in sim/harness.")
NA = {
 "N01": "pure function of the word frequencies: no schedule, clock, fault or interleaving for a simulation to decide; unit and property-based tests fit (C05 rebuilds the tree only as a reference)",
 "N02": "pure function of one number, no schedule, clock, fault or interleaving; exhaustive or property-based testing fits",
 "N03": "pure function of two numbers, no schedule, clock, fault or interleaving",
}
TECH = {
 "C01": "whole trainings under seeded schedules, deadlock, endless-run and crash detection",
 "C02": "task table, output, reads and vectors compared after training returned and the rest was drained",
 "C03": "read and rewind failures at seeded points of seeded passes, under seeded schedules",
 "C04": "updates decoded from the exported vectors of simulated trainings, compared with a count over the corpus",
 "C05": "scored tree nodes decoded from the exported vectors through an order-independent quadratic form, under seeded schedules preempting path lookups",
 "C06": "fits decoded from the exported vectors of simulated trainings, compared with the corpus and the association table",
 "C07": "fits decoded from the exported vectors of simulated trainings, compared with the co-occurrence table",
 "C08": "the rate of each update decoded from the exported vectors under seeded schedules of workers and rate updater",
 "C09": "corpora loaded from simulated streams (chunking, latency, failures), dictionary compared with a reference count",
 "C10": "co-occurrence tables from simulated streams compared with a reference table",
 "C11": "producer and slow consumers of batches under seeded schedules and stream faults, history compared with the corpus",
 "C12": "trainings with count limits under seeded schedules, vectors compared bit by bit with the initial ones",
 "C13": "saving to simulated writers and disks that fail, tear or fill up at seeded bytes, received bytes compared with the reference text",
 "C14": "loading from simulated streams that fragment, fail or end at seeded bytes, result compared with a reference parser",
 "C15": "saver and loader joined by a simulated pipe under seeded schedules and fragmentation, values compared with the model",
 "C16": "concurrent queries on one searcher under seeded schedules, each answer compared with a brute-force ranking",
 "C17": "console sessions on a simulated terminal that ends or fails, each answer compared with a fresh session and a brute-force ranking",
 "C18": "commands on a simulated file system with seeded faults, kills and disk-full, file-system state checked afterwards",
 "C19": "histories of trainings on one or two models under seeded schedules and input faults, compared with fresh models",
 "C20": "reports printed during simulated trainings parsed and compared with the corpus; vectors compared with a silent twin run",
 "C21": "concurrent path lookups under seeded schedules, each compared with a walk up the tree",
 "C22": "models created with seeded hostile settings and trained under seeded schedules; hangs, endless runs and crashes detected",
 "C23": "concurrent exports under seeded schedules compared with each other and with known initial ranges",
 "C24": "query commands on a simulated file system with seeded faults, rows compared with a brute-force ranking",
 "C25": "workers starved by the scheduler while the reader runs on; bytes read ahead bounded",
 "C26": "the same settings given as flags, structure and functional options in seeded twin runs, saved bytes and reports compared",
 "C27": "read, rewind and settings failures at seeded points of histories of trainings, what the model gives out afterwards compared with what it gave before",
 "C28": "reports of trainings on a simulated clock that advances and steps at seeded points, each compared with the simulated time of its phase",
 "C29": "twin trainings in both storage modes with the same random numbers under seeded schedules and fragmentation, vectors compared bit by bit",
 "C31": "simulated trainings over an input that gives something else at a random pass, vanished words compared bit by bit with their initial vectors",
 "C30": "simulated trainings whose random numbers are chosen, centres decoded from the exported vectors, the probability of each word found by bisection",
}
NOTE = {
 "C01": "All models, storage modes and option combinations on small corpora, any chunking, 8 scheduler policies with statement-level preemption.",
 "C02": "After return every remaining task is run to its end or block; nothing may be printed, read or changed and nothing may stay blocked.",
 "C03": "The failure hits a seeded byte or rewind of any pass; success, hang and crash are violations.",
 "C04": "Learning rate 1e-10 makes the change of the vectors linear in the updates; corpora of up to 40 words over a dozen distinct ones (300 for negatives), so counts above about 40 per pair are out of reach.",
 "C05": "Learning rate 1e-3, window 1; sums over all occurrences are checked per tree, not single updates, so two errors cancelling exactly would pass.",
 "C06": "Learning rate 1e-10; small corpora; the number of negatives is exact only where rows are told apart.",
 "C07": "Learning rate 1e-10; small corpora; both solvers and count types.",
 "C08": "Window 1 on distinct words makes every update visible; both models with a rate schedule.",
 "C09": "Both storage modes loaded side by side from separately fragmented and failing streams, words across buffer boundaries.",
 "C10": "Both storage modes, both count types, windows longer than the corpus, any chunking and failures.",
 "C11": "Batch sizes including exact divisors, channel capacities 0 to 5, slow consumers, repeated streaming, failures in any later pass.",
 "C12": "Whether words inside the limits are trained is checked only when the corpus is not split between the neighbours.",
 "C13": "Writers that fail, tear or lie about short writes at any byte, all models and vector kinds.",
 "C14": "Malformed, truncated, very long and failing streams against a reference parser.",
 "C15": "Direct and piped save/load, all models, unicode and long words.",
 "C16": "Up to a few concurrent clients, ties, zero vectors, duplicates, query vectors of other dimensions and huge k.",
 "C17": "The line editor is a stub; lines whose meaning Go's expression syntax leaves open are only checked for history independence and for not crashing.",
 "C18": "Failures by operation, by path and by count, disk full, kills before, inside and after operations; the working directory is simulated. A tenth of the undisturbed cases run two commands at once, as two processes.",
 "C19": "Compared bit by bit for settings whose result does not depend on the schedule; with several workers only the shape and the vocabulary are compared.",
 "C20": "Reports are recognised by the word 'trained' or 'read' and the first number; vectors are compared bit by bit for settings whose result does not depend on the schedule.",
 "C21": "Trees of up to a few hundred words, several clients, every depth from zero to beyond the path.",
 "C22": "Sizes from the smallest integer to 10000, not-a-number and infinite rates; success, or an error, are both accepted.",
 "C23": "All models, concurrent exports and saves of a trained model, saves of unknown kinds.",
 "C24": "The rows are compared with a brute-force ranking over the file; every operation of the command may fail.",
 "C26": "Commands run on a simulated file system with one worker and random numbers replayed, so both sides must agree byte for byte.",
 "C27": "Histories of up to four trainings; vectors of the new corpus are told from stale ones by shape, vocabulary and their former values.",
 "C28": "Tolerance only for the time the reporter itself may wait to be scheduled; saving and loading reports included.",
 "C29": "Settings without randomness or with random numbers replayed; one worker in memory against one batch streamed.",
 "C31": "The rows are compared only where every pass but the first is known to lack the word; how often the words that stayed are trained is not counted.",
 "C30": "Window 1, no negatives, learning rate 1e-10, corpora of up to 100 words. That every draw is independent is only checked as far as occurrences and passes are not decided together.",
 "C25": "The bound is generous: three times goroutines times batch size plus buffers.",
}
