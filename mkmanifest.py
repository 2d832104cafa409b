"""Writes MANIFEST.json. Checks of properties whose scenario module exists are claimed."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
SIM = 'deterministic simulation: '
CLAIMS = {
    'C01': (SIM + 'seeded schedules of overlapping and re-entrant parses, judged against a reference model',
            'Every call of every simulated run gives exactly what an independent reference model derives from its document. '
            'Random search over schedules (bursts, PCT, round robin; lines or opcodes), models and documents: no exhaustiveness.'),
    'C02': (SIM + 'seeded schedules of overlapping and re-entrant serializations, judged against a reference model',
            'Every document written equals the one the reference model derives from instance and options; instances are '
            'compared before and after. Random search over schedules, models and instances.'),
    'C03': (SIM + 'seeded schedules and histories of calls with differing contexts and options, context identity watched '
                  'in every validator',
            'Context identity is checked in every validator call before and after a preemption; options are judged through '
            'the reference model. Random search.'),
    'C04': (SIM + 'seeded histories of definitions (failing, interrupted and concurrent ones) interleaved with uses',
            'After every step of a history each earlier model is compared with its reference behaviour. Random search over '
            'histories, crash points and schedules.'),
    'C05': (SIM + 'seeded schedules and histories of definitions, resolution attempts, faults and uses of models with '
                  'forward references',
            'An operation must be refused or be right, and must be right once resolution has succeeded. Random search.'),
    'F01': (SIM + 'faults injected at seeded points of parses (callbacks, asynchronous exceptions, stack exhaustion), '
                  'state compared and calls repeated',
            'Source trees are compared node by node and every call is repeated without faults and judged against the '
            'reference model. Faults strike between lines of the package and in callbacks; random points.'),
    'F02': (SIM + 'faults injected at seeded points of serializations, state compared and calls repeated',
            'Instances are compared and every call is repeated without faults and judged against the reference model. '
            'Random fault points.'),
    'F03': (SIM + 'seeded sets of injected failures (rejecting validators, damaged values), error reports judged against a '
                  'reference model',
            'The whole list of errors (path, type, message, source line) is compared with the one the reference model '
            'derives. Random search over models and failure sets.'),
    'F04': (SIM + 'faults injected at seeded points of parses and serializations, the raised exception identified',
            'The injected exception, identified by a token, must come out. Serializers and properties inside unions are left '
            'out: pydantic-core itself retries there.'),
    'F05': (SIM + 'seeded damage and callback failures inside union alternatives, results judged against a reference model',
            'Value, remaining document and errors are compared with the reference model. Random search.'),
    'D01': (SIM + 'simulated nodes with faulty disks and links (torn, lost, short, zero-filled, corrupted writes)',
            'What a reader gets from damaged bytes is compared with what the bytes describe according to an independent '
            'parser and the reference model. Random search over fault sequences.'),
    'D02': (SIM + 'simulated nodes (both backends) with crash, recovery and transfer histories',
            'Recovered instances are compared with a model of what was durable. Random search over histories. Two known '
            'findings are excluded by construction and reported.'),
    'D03': (SIM + 'simulated transfers through rewriting proxies between nodes on both backends',
            'Objects, errors and, per backend, source lines are compared between original and rewritten documents and with '
            'the reference model. Random search over rewritings.'),
    'D04': (SIM + 'sub-elements delivered through a faulty channel (reordered, lost, duplicated, foreign ones), judged '
                  'against a reference model',
            'Binding is compared with a reference model of the three search modes. Random search.'),
    'D05': (SIM + 'foreign content injected at seeded places, the accounting of extras judged against a reference model',
            'The complete error list is compared with the reference model. Random search.'),
    'H01': (SIM + 'seeded histories of reader operations, snapshots and applications against an executable model',
            'Every answer is compared with a list-based model of the reader. Random search over histories.'),
    'H02': (SIM + 'seeded histories of mutations interleaved with calls, all other state compared',
            'All live objects are fingerprinted around every mutation. Random search over histories.'),
    'H03': (SIM + 'seeded histories of calls with failures and faults, reachability and object counts measured',
            'Weak references of inputs and results must die and object counts must not grow over repetitions.'),
    'H05': (SIM + 'seeded histories and schedules of definitions, calls, faults and changes by the application, the state of the '
                  'process compared throughout',
            'Interpreter settings, registries and the attributes of shared modules are compared around every operation and within '
            'callbacks; documents must carry the declared prefixes. Random search; only the listed state is watched.'),
    'H04': (SIM + 'simulated replicas with different hash seeds and histories, outcomes compared',
            'Digests of documents, objects and errors are compared between processes. Random search.'),
}
NA = {
    'N01': 'a pure function of the declaration: no schedule, fault, time, I/O or history takes part (names and namespaces '
           'still enter every simulated document through the reference model)',
    'N02': 'a pure function of instance and options, no nondeterminism (the options are exercised in C03 and D02)',
    'N03': 'a pure function of the value, no nondeterminism (text forms are part of the reference model)',
    'N04': 'a pure function of the declaration, no nondeterminism; failing definitions are used as faults in C04',
    'N05': 'concerns the static analysis of a separate tool (mypy); nothing is executed that a simulator could drive',
    'N06': 'a pure function of the declaration, no nondeterminism',
}


def main():
    ids = [json.loads(line)['id'] for line in open(os.path.join(HERE, 'properties.jsonl'))]
    checks, na = [], []
    for i in ids:
        if i in NA:
            na.append({'property': i, 'reason': NA[i]})
        elif os.path.exists(os.path.join(HERE, 'sim', 'props', i + '.py')):
            technique, note = CLAIMS[i]
            checks.append({'property': i, 'quick_cmd': f'/opt/venv/bin/python check.py {i}',
                           'thorough_cmd': f'/opt/venv/bin/python check.py {i} --thorough',
                           'evidence_file': f'evidence/{i}.json', 'technique': technique, 'level': 'exploration',
                           'level_note': note})
        else:
            na.append({'property': i, 'reason': 'no check yet'})
    doc = {'version': 1, 'setup_cmd': '/opt/venv/bin/python check.py setup', 'checks': checks, 'not_applicable': na,
           'notes': 'No hooks in /repo: the simulator takes its seams from outside (trace function, callbacks of the '
                    'application, lock factories, files and links of the simulated nodes). Any recorded run is executed again '
                    'by: /opt/venv/bin/python check.py replay FILE'}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(doc, f, indent=1)
        f.write('\n')


main()
