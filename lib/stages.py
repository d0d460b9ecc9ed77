"""The stages of the check of a property, in order."""
import runner, traces

def of(run):
    return [runner.tables_stage, traces.stage]
