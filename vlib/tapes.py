"""Further observers of a run: all registered ones have to be told the same, in
the same order; removed ones nothing."""

KINDS = ("start", "acquire", "release", "done", "failure", "exit")


def tape(server, leave=None):
    """``leave``: number of notifications after which it removes itself."""
    from daisy.server_observer import ServerObserver

    from .sched import state_counts

    class Tape(ServerObserver):
        def __init__(self, server):
            self.events = []
            super().__init__(server)

        def add(self, *event):
            self.events.append(event)
            if leave is not None and len(self.events) == leave:
                server.unregister_observer(self)

        def on_task_start(self, task_id, task_state):
            self.add("start", task_id, state_counts(task_state))

        def on_acquire_block(self, task_id, task_state):
            self.add("acquire", task_id, state_counts(task_state))

        def on_release_block(self, task_id, task_state):
            self.add("release", task_id, state_counts(task_state))

        def on_task_done(self, task_id, task_state):
            self.add("done", task_id, state_counts(task_state))

        def on_block_failure(self, block, exception, context):
            self.add("failure", block.block_id, repr(exception))

        def on_server_exit(self):
            self.add("exit")

    return Tape(server)


class Tapes:
    def __init__(self, server, main, leave=3):
        """``main`` registers the observer whose events are judged."""
        self.first = tape(server)
        self.leave = leave
        self.leaving = tape(server, leave)
        gone = tape(server)
        main()
        self.last = tape(server)
        self.gone = gone
        server.unregister_observer(gone)

    def check(self, out, events):
        if self.gone.events:
            out.violate("C18", "removed", f"a removed observer was told {self.gone.events[0]}")
        if self.first.events != self.last.events:
            n = next(
                (i for i, (a, b) in enumerate(zip(self.first.events, self.last.events)) if a != b),
                min(len(self.first.events), len(self.last.events)),
            )
            out.violate(
                "C18", "observers", f"two observers were told differently: {self.first.events[n:n + 1]}, {self.last.events[n:n + 1]}"
            )
        if self.leaving.events != self.first.events[: self.leave]:
            out.violate(
                "C18", "leaving", f"an observer that left after {self.leave} notifications was told {self.leaving.events[self.leave - 1:]}"
            )
        mine = [e[0] for e in events if e[0] in KINDS]
        if mine != [e[0] for e in self.last.events] or mine != [e[0] for e in self.first.events]:
            out.violate(
                "C18", "observers", f"observers were told {len(mine)}, {len(self.first.events)} and {len(self.last.events)} times"
            )
        out.count("observers compared")
