TECH = "TLA+ specification checked with TLC; executions of the real code validated step by step against it"
NOTE = ("Every recorded step of the real code is an allowed step of the TLA+ specification, for the generated programs, "
        "histories and timings of the run; bounded exploration, not a proof. Trusts asyncio, TLC and the trace recorder, "
        "which is made of user-level components, handlers and effects only.")
NA = {}
