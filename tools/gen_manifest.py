#!/usr/bin/env python3
"""Writes MANIFEST.json from the table of checks below and properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
AI = 'path-sensitive abstract interpretation of the compiler\'s MIR'
CHECKS = {
 'P01': (AI + ' (panic / assertion reachability)', 'Every path of Packet::from_bytes, with loops summarised, over an arbitrary byte source. Trusts the models of std/bytes functions and rustc\'s MIR.'),
 'P02': (AI + ' (symbolic length accounting over reachable packet states)', 'Every reachable packet state (fixpoint over public constructors and mutators, vectors up to 3 entries symbolically, loops as sums): frame_len and every inner length field equal the symbolic length of the emitted tokens. Frames within the MQTT size limit assumed.'),
 'P03': (AI + ' (symbolic round trip: decode over the emitted token stream)', 'Every reachable packet state, vectors up to 2 entries; the decoder is interpreted over the symbolic token stream the encoder emitted and the result compared field by field. Property tables through a separately proved per-property round trip.'),
 'P04': (AI + ' (symbolic byte accounting)', 'Every Ok path of Packet::from_bytes: bytes consumed and Packet::frame_len equal the announced frame symbolically; varint and property-table contracts proved separately.'),
 'P05': (AI + ' (path facts at incomplete/complete outcomes)', 'Every InsufficientBuffer and Ok path of Packet::from_bytes.'),
 'P06': (AI + ' (first-byte tokens per packet kind; decoder outcomes per first byte)', 'All reachable packet states and all 256 first bytes, symbolically, against the MQTT 5 table in engine/spec.py.'),
 'P07': (AI + ' (reason-code relation, encoder and decoder)', 'For each packet with a reason code: every constructor/decoder state, every byte value symbolically, against the MQTT 5 table.'),
 'P08': (AI + ' (property table extracted from insert and decode behaviour)', 'Every (owner, property, type) combination through the public constructors and the decoder, against the MQTT 5 table. One known finding.'),
 'P09': (AI + ' (bit-level relation between flag bytes and fields)', 'Every flag byte of CONNECT, CONNACK, PUBLISH and subscription options, encoder tokens and decoder acceptance masks.'),
 'P10': (AI + ' (state invariant over reachable packet states)', 'Fixpoint over public constructors, setters (success and failure) and the decoder.'),
 'P11': (AI + ' (text as character-class stream; length and range facts at construction)', 'Every function building a protocol string, binary or variable integer, and every public constructor/mutator for the caller values it stores.'),
 'P12': (AI + ' (text as character-class stream in product with the topic-filter automaton)', 'Every function building a topic or a PUBLISH and the topic mutators of SUBSCRIBE/UNSUBSCRIBE; loops of the validators are explored over the finite product program state x automaton, for texts of any length.'),
 'P16': (AI + ' (setter / accessor frame conditions)', 'Every public constructor, setter, list and property mutator of every packet and of wills, on every reachable abstract state (vectors up to 2 entries), with arbitrary arguments; flag bits are decided by P09 and P10, the uniqueness of properties by P13.'),
 'P14': (AI + ' (constructor/decoder to accessor relation)', 'Every public constructor of property values and every decoded property against every accessor.'),
 'P13': (AI + ' (table invariant over insertion and decoding)', 'Every insertion path of every property owner and every decoding path.'),
 'P15': (AI + ' (dependency on chunk boundaries)', 'Every path of Packet::from_bytes; Buf::chunk abstracted as arbitrary prefix.'),
}
SAI = 'abstract interpretation of the MIR of all server tasks (event traces with path facts, fixpoint over channel and table contents)'
SN = 'Every explored path of the listener, connection set-up, manager, client and dispatcher tasks; packet crate, tokio, snow and collections replaced by contracts in engine/srv.py, srvpk.py and models.py. '
CHECKS.update({
 'S01': (SAI + ', panic reachability and call-graph recursion', SN + 'Run with the tracing feature on; every panicking construct of reachable server code is an obligation; recursion over topic levels must be bounded.'),
 'S02': (SAI + ', order of events before a connection is handed over', SN + 'What precedes each hand-over of a connection and each packet forwarded to the dispatcher.'),
 'S03': (SAI + ', path facts about the CONNECT at every CONNACK', SN),
 'S04': (SAI + ', path facts at every PUBLISH sent and value flow of the encryption status', SN),
 'S05': (SAI + ', effects per round over the subscribers and value flow of topic, payload and properties', SN + 'The result of the look-up is decided by S11.'),
 'S06': (SAI + ', path facts at every look-up and answer per packet', SN),
 'S07': (SAI + ', effects per round over the filters and value flow into the answer', SN),
 'S08': (SAI + ', effect analysis: every wait selects on the shutdown notification', SN),
 'S09': (SAI + ', held-guard and lock-order analysis', SN + 'Every acquisition and every wait with the set of guards held.'),
 'S10': (AI + ': table operations summarised as finite transducers over topic levels and run over histories; guard atomicity and write order rules', 'Every operation of TopicsTable, every sequence of up to three operations from a set of representatives for every level text the code distinguishes, plus per-operation atomicity (check and act under one guard) and order of index and table writes.'),
 'S11': (AI + ': table operations summarised as finite transducers over topic levels, compared with the MQTT matching relation', 'Filters and topics up to three levels over representatives of every level text and length the code distinguishes; recursion closed over argument shapes, so deeper levels repeat the same summaries.'),
 'S12': (SAI + ', size facts at every read and write', SN),
 'S13': (SAI + ', cancellation safety of select arms and one-write-per-packet effects', SN + 'Every select a task comes back to and every iteration of every client task.'),
 'S14': (SAI + ', typestate of client table entries', SN),
 'S15': (SAI + ', no loop iteration after end of stream or error', SN + 'Server connections and the benchmark client.'),
 'S16': (SAI + ', value flow of plaintext and ciphertext', SN),
 'S17': (SAI + ', effect analysis: waits of set-up raced by a keep-alive timer', SN),
 'S18': (SAI + ', value analysis of the queue size', SN),
 'N03': (SAI + ', one-task and same-round value flow from decode to write', SN + 'Trusts that tokio channels and TCP are first in, first out.'),
 'S19': (SAI + ', CONNACK properties against configuration and behaviour', SN),
 'S20': (SAI + ', value flow of the byte buffers of the benchmark client', SN + 'The three operations of the benchmark client, from every state they leave it in.'),
})
NA = {
 'N01': 'Keep-alive enforcement is not implemented in this work-in-progress server: the client task has no timer and the dispatcher answers neither PINGREQ, UNSUBSCRIBE nor DISCONNECT. No construct of the source could satisfy or break the property, and how long a client stays idle is a quantity of real time.',
 'N02': 'The queues to clients are unbounded channels by design (ClientWorker::new, ClientManager::start); whether they grow depends on the relative speed of peers at run time. A static rule could only restate that design decision, not decide a bound.',
 'N04': 'Secrecy and authentication are properties of the Noise protocol and the snow library, not decidable from this source; that the server uses them correctly on every path is S16.',
}
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks = []; na = []
for p in props:
    i = p['id']
    if i in CHECKS:
        t, n = CHECKS[i]
        checks.append({'property': i, 'quick_cmd': 'python3 check.py %s' % i, 'thorough_cmd': 'python3 check.py %s' % i, 'technique': t, 'level': 'other', 'level_note': n})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'No check registered yet: the static rules for this property are still being built.')})
json.dump({'version': 1, 'setup_cmd': 'python3 engine/build.py', 'checks': checks, 'not_applicable': na,
           'notes': 'All checks share engine/ (MIR dump, abstract interpreter); no hooks are needed in /repo.'}, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
