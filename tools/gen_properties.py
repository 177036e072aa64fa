#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run me after editing; output is committed)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=list(over), text=text), why_tests_cant=why,
             anchors=dict(files=files,
                          mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d['anchors']['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: d['anchors']['observe_at'] = list(observe)
    d['anchors']['hook_needed'] = None
    P.append(d)
K = 'packet/src/'
S = 'server-lib/src/'
C = S + 'clients/'
ALLP = [K + f + '.rs' for f in 'auth connack connect disconnect ping puback pubcomp publish pubrec pubrel suback subscribe unsuback unsubscribe'.split()]

prop('P01', 'Decoding never crashes, whatever the bytes',
 'For every byte sequence, however it is split into buffer chunks, decoding a packet returns a packet or an error: it never panics, overflows, reads past the available bytes or loops without consuming input.',
 ['inputs'], 'every byte string handed to the packet decoder through every buffer implementation',
 'The tests decode a few dozen hand-written frames; the unchecked reads are only safe because of length checks elsewhere, which must hold for every input.',
 [K+'packet.rs', K+'data.rs', K+'props.rs', K+'parsable.rs'] + ALLP,
 [('length check before every unchecked read', K+'parsable.rs, each packet decoder'), ('per-frame sub-buffer', 'each packet decoder')], observe=['Packet::from_bytes'])
prop('P02', 'Reported frame length equals the bytes emitted',
 'For every packet that can be built or decoded, the frame length it reports equals the number of bytes it writes, and each length field inside the frame (remaining length, property length, string and binary lengths) equals the number of bytes that follow it.',
 ['inputs'], 'every packet value reachable through the public constructors, setters and the decoder',
 'Tests compare lengths for one value per packet type; size computation and serializer are separate code that must agree for every combination of optional fields, properties and lists.',
 [K+'packet.rs', K+'data.rs', K+'props.rs'] + ALLP,
 [('size()/partial_size() next to serialize() in every packet', 'packet/src/*.rs'), ('running byte count of the property table', K+'props.rs Properties::unchecked_insert')], observe=['Packet::frame_len', 'Packet::to_bytes'])
prop('P03', 'Decoding an encoded packet gives the packet back',
 'For every packet that the public interface can build, decoding its encoding succeeds and yields a packet of the same kind in which every field has the same value (properties as a multiset, repeated ones in order), except for values the protocol forbids on the wire.',
 ['inputs'], 'every packet value reachable through the public constructors and setters',
 'Round-trip tests exist for one sample per packet; field order, widths, optional-field conditions and flag tests must agree between two separate functions for every value.',
 [K+'packet.rs', K+'data.rs', K+'props.rs', K+'reason.rs'] + ALLP,
 [('serialize()/deserialize() pairs', 'packet/src/*.rs')], observe=['Packet::to_bytes', 'Packet::from_bytes'])
prop('P04', 'A decoded packet accounts for exactly its own frame',
 'Whenever decoding succeeds, the bytes consumed are exactly the fixed header plus the announced remaining length, and the frame length reported by the decoded packet equals the bytes consumed, so a stream of back-to-back packets never loses synchronisation.',
 ['inputs'], 'every byte string on which decoding succeeds',
 'The server advances its receive buffer by the reported frame length; a single accepted non-canonical length or ignored trailing byte shifts every later packet, and no test decodes such a frame.',
 [K+'packet.rs', K+'data.rs', C+'mqttclient.rs'] + ALLP,
 [('sub-buffer limited to the announced length', 'each packet decoder'), ('length equality check', K+'connect.rs, connack.rs')], observe=['Packet::from_bytes', 'Packet::frame_len'])
prop('P05', 'Incomplete frames ask for more data; complete bad frames never do',
 'If the input is a proper prefix of a frame, decoding either reports that more data is needed or that the packet is malformed, and never succeeds; once every byte announced by the fixed header is present, decoding never reports that more data is needed.',
 ['inputs'], 'every byte string, seen as prefix of a frame or as complete frame',
 'Tests never feed truncated or internally inconsistent frames; a wrong classification either kills valid slow connections or leaves the server waiting for ever on a malformed packet.',
 [K+'packet.rs', K+'parsable.rs', K+'data.rs', C+'mqttclient.rs'] + ALLP,
 [('completeness check after the remaining length is decoded', 'each packet decoder')], observe=['Packet::from_bytes'])
prop('P06', 'Every control packet has its MQTT 5 type code and fixed flags',
 'Each of the fifteen control packets is written with the type code and reserved flag bits that MQTT 5 assigns to it, is recognised by the decoder under exactly that first byte (PUBLISH with its own flag bits), and every other first byte is rejected.',
 ['inputs'], 'all 256 first bytes and all packet kinds',
 'Tests cover one correct first byte for some packets; rejection of the others and the agreement between writer and reader tables are untested.',
 [K+'packet_type.rs', K+'packet.rs'], [('type/flag tables', K+'packet_type.rs'), ('dispatch on packet type', K+'packet.rs')], observe=['Packet::to_bytes', 'Packet::from_bytes'])
prop('P07', 'Reason codes are exactly the MQTT 5 ones, both ways',
 'For each acknowledgement, disconnect and authentication packet, the set of accepted reason-code bytes, and the meaning given to each byte, is exactly the one MQTT 5 defines for that packet; writing a reason code emits the same byte that reading maps back to it, and all other bytes are rejected.',
 ['inputs'], 'all 256 reason-code bytes in each of the packet kinds carrying one',
 'Tests use one or two codes per packet.',
 [K+'reason.rs'] + [K+f+'.rs' for f in 'connack puback pubrec pubrel pubcomp suback unsuback disconnect auth'.split()],
 [('six reason-code tables', K+'reason.rs')])
prop('P08', 'Property identifiers, types and owners follow the MQTT 5 table',
 'Each property is written and read under its MQTT 5 identifier, carries a value of one fixed wire type, may be repeated only if MQTT 5 allows it, and is allowed in exactly the packets that MQTT 5 lists; unknown identifiers are rejected.',
 ['inputs'], 'all property identifiers, all packets that carry properties',
 'The table has 27 rows and 14 owners; tests touch a handful of cells.',
 [K+'props.rs'], [('property auxiliary table', K+'props.rs Property::auxiliary_data'), ('identifier decoder', K+'props.rs Property::deserialize')])
prop('P09', 'Flag bytes carry the MQTT 5 bits and illegal combinations are refused',
 'The flag bits of CONNECT, CONNACK, PUBLISH and of each subscription have their MQTT 5 positions and meanings; the decoder refuses reserved bits, QoS 3, retain-handling 3, and will QoS or retain without a will, and accepts every other combination.',
 ['inputs'], 'all 256 values of each flag byte',
 'Tests decode a few valid combinations and hardly any invalid ones.',
 [K+'connect.rs', K+'connack.rs', K+'publish.rs', K+'subscribe.rs', K+'qos.rs'],
 [('flag types and their QoS / retain-handling conversions', K+'connect.rs, publish.rs, subscribe.rs')])
prop('P10', 'Flag bits always agree with the optional fields they announce',
 'In every packet that can be built through the public interface, including after a setter has failed, or decoded, the user-name, password and will flags are set exactly when the corresponding field is present, will QoS and retain are set only together with a will, and a packet identifier is present in a PUBLISH only if its QoS is above 0.',
 ['inputs', 'histories'], 'every sequence of builder calls, successful or failing, and every decoded packet',
 'Builder histories are unbounded and tests only use the successful order of calls.',
 [K+'connect.rs', K+'publish.rs'], [('flag update next to field update in setters', K+'connect.rs, publish.rs')], observe=['Packet::to_bytes'])
prop('P11', 'Strings, binaries and integers outside the protocol limits are never built',
 'Every text, binary and variable-length integer value held by a packet, whether supplied by the caller or decoded, satisfies the protocol limits: text is at most 65535 bytes of UTF-8 without control characters, binary data at most 65535 bytes, integers at most 268435455; otherwise construction fails.',
 ['inputs'], 'every value given to a constructor, setter or the decoder',
 'Tests try a couple of bad values on one constructor; length prefixes are truncated silently if any construction path skips the check.',
 [K+'data.rs', K+'connect.rs', K+'topic.rs', K+'props.rs'], [('verify() on construction', K+'data.rs')])
prop('P12', 'Topics are syntactically valid and published topics are never patterns',
 'A topic filter in a SUBSCRIBE or UNSUBSCRIBE, built or decoded, has `#` only as its whole last level and `+` only as a whole level, and every such filter is accepted; a PUBLISH topic never contains `#` or `+`.',
 ['inputs'], 'every topic string given to a constructor or the decoder',
 'Tests check a list of sample topics.',
 [K+'topic.rs', K+'publish.rs', K+'subscribe.rs', K+'unsubscribe.rs'], [('topic validator', K+'topic.rs is_valid_topic'), ('wildcard check', K+'publish.rs')])
prop('P13', 'Property tables only ever hold entries legal for their packet',
 'A property table attached to a packet, by caller or decoder, never contains a property that is not allowed in that packet or whose value has the wrong type, never holds two values of a property that must be unique, and decoding a frame violating any of these fails.',
 ['inputs', 'histories'], 'every sequence of property insertions into every packet kind and every decoded property section',
 'Ownership, type and duplicate checks sit in separate functions used by 14 packets; the tests exercise few combinations.',
 [K+'props.rs'] + ALLP, [('checked insertion', K+'props.rs'), ('owner check after decoding', 'each packet decoder')])
prop('P14', 'A property value is readable through the accessor of its type',
 'A property value built or decoded with a given type yields that same value from the accessor of that type and nothing from the accessors of unrelated types.',
 ['inputs'], 'every property value and every accessor',
 'No test calls most accessors; callers unwrap them.',
 [K+'props.rs'], [('accessors', K+'props.rs MqttPropValue')])
prop('P15', 'Decoding does not depend on how the bytes are chunked',
 'The outcome of decoding depends only on the sequence of bytes, not on how the buffer implementation splits it into contiguous chunks.',
 ['inputs'], 'every buffer implementation and every split of the same bytes',
 'All tests but one decode from a contiguous buffer.',
 [K+'data.rs', K+'publish.rs', K+'props.rs'], [('cursor-style buffer reads', K+'data.rs')])

prop('P16', 'A packet reports what was put into it',
 'What is given to a constructor, an accepted setter, an added entry or an added property is what the accessor of the same name reports, entries in the order they were added; nothing an unrelated accessor reports changes, a refused change changes nothing at all, and building the packet keeps everything.',
 ['inputs', 'histories'], 'every packet, every reachable state, every value and every order of calls',
 'The tests set a few fields of a few packets and mostly look at the encoded bytes, which a wrong accessor or a side effect does not change.',
 [K+'connect.rs', K+'publish.rs', K+'props.rs', K+'subscribe.rs'], [('setters and accessors', K+'connect.rs, publish.rs, subscribe.rs, suback.rs'), ('property tables', K+'props.rs')])

prop('S01', 'No packet sent by a client can crash a server task',
 'Whatever packets clients send, in whatever order and while other clients come and go, no task of the server that serves connections, dispatches packets or manages clients panics.',
 ['inputs', 'histories', 'schedules'], 'every packet sequence from every client, interleaved with connects and disconnects of others',
 'The server crates have no tests at all; a single panic in the shared dispatcher silences the broker for every client.',
 [S+'dispatcher.rs', S+'topics.rs', S+'lib.rs', C+'clientworker.rs', C+'mqttclient.rs', C+'noiseclient.rs', C+'mod.rs'],
 [('validation before unwrap', C+'clientworker.rs, '+S+'dispatcher.rs')])
prop('S02', 'Only a completed CONNECT handshake makes a client',
 'A connection is handed over to the server as a client, and can have its packets processed, only after its own CONNECT has been received as first packet and accepted (and, on the encrypted port, after the encryption handshake completed); on refusal, error, time-out or shutdown it is dropped instead.',
 ['histories', 'schedules', 'fault_sequences'], 'every order of events during connection set-up on both transports',
 'No test connects a client; time-outs, shutdown and failures during set-up are never exercised.',
 [C+'mqttclient.rs', C+'noiseclient.rs', C+'clientworker.rs', C+'mod.rs'], [('connection state machine', C+'mqttclient.rs, noiseclient.rs _connect_client')])
prop('S03', 'CONNECT requests the server cannot honour are refused',
 'A CONNECT carrying a user name, a password, a will, no clean-start flag, or authentication properties is answered with a failure CONNACK and the connection ends; a success CONNACK is sent, once, only when none of these is present.',
 ['inputs'], 'every CONNECT packet',
 'No test covers the server side of CONNECT.',
 [C+'clientworker.rs'], [('CONNECT processing', C+'clientworker.rs process_connect')])
prop('S04', 'Strict permeability keeps encrypted messages off plain connections',
 'With strict channel permeability, a message published over an encrypted connection is never sent to a client connected without encryption, and the encryption status of a client is exactly the transport it connected on; with permissive permeability nothing is withheld for that reason.',
 ['inputs', 'configurations'], 'every publish, every subscriber, both permeability settings',
 'No test exercises the dispatcher or two transports.',
 [S+'dispatcher.rs', C+'client.rs', C+'clientworker.rs'], [('strict check before each send', S+'dispatcher.rs process_publish')])
prop('S05', 'An accepted message reaches every matching subscriber once, unchanged',
 'When a message is accepted for forwarding, each connected client with a matching subscription receives exactly one copy with the same topic, payload and forwardable properties, except a publisher that asked not to receive its own messages; nobody else receives anything.',
 ['inputs', 'histories'], 'every accepted PUBLISH against every subscription table',
 'There is no dispatcher test; the loop must not drop, duplicate or alter for any table.',
 [S+'dispatcher.rs', S+'topics.rs'], [('fan-out loop', S+'dispatcher.rs process_publish')])
prop('S06', 'Messages using unsupported features are refused, never forwarded',
 'A PUBLISH with QoS above 0, DUP, RETAIN, a topic alias, a subscription identifier or an expiry interval is forwarded to nobody and its sender is told with a DISCONNECT carrying the implementation-specific-error reason; the same holds for packet kinds and SUBSCRIBE properties the server does not implement.',
 ['inputs'], 'every packet a client can send',
 'No test covers these branches.',
 [S+'dispatcher.rs'], [('refusal path', S+'dispatcher.rs unimplemented')])
prop('S07', 'SUBACK tells the truth about every filter',
 'Every processed SUBSCRIBE is answered with one SUBACK carrying its packet identifier and exactly one reason code per filter in order, granted if and only if that filter was entered into the subscription table with the requested options, and filters asking for QoS above 0 or retained messages are refused.',
 ['inputs'], 'every SUBSCRIBE packet',
 'No test covers subscription processing.',
 [S+'dispatcher.rs', S+'topics.rs'], [('per-filter loop', S+'dispatcher.rs process_subscribe')])
prop('S08', 'Shutting down stops every task',
 'After shutdown is requested, every listener, the client manager, every connected or connecting client and the dispatcher stop, whatever they are doing at that moment, and the shutdown call returns.',
 ['schedules'], 'every state of every task at the moment of shutdown, any number of connections',
 'Shutdown is never tested; it depends on wake-ups reaching every waiter.',
 [S+'lib.rs', S+'dispatcher.rs', C+'mod.rs', C+'clientworker.rs', C+'mqttclient.rs', C+'noiseclient.rs'], [('shared shutdown signal raced against each task', S+'lib.rs and every run()')])
prop('S09', 'Locks are taken in one order and never across socket I/O',
 'Shared tables are locked in a fixed order, never re-locked for writing by a task that already holds them, and never kept locked while waiting for a socket or a bounded queue, so no interleaving of clients can deadlock the server or let one stalled peer block all others.',
 ['schedules'], 'every interleaving of connection tasks, manager and dispatcher',
 'Deadlocks need particular interleavings; no concurrent test exists.',
 [S+'dispatcher.rs', S+'topics.rs', C+'mod.rs', S+'lib.rs'], [('lock scopes', S+'topics.rs, dispatcher.rs')])
prop('S10', 'The subscription table stays consistent under every operation order',
 'Concurrent subscriptions never lose one another; unsubscribing, or removing all subscriptions of a client, undoes exactly what the same filter\'s subscription entered; and every entry that must be removed when the client goes is listed in the per-client index once subscribing has finished, the index being written after and removed before the entries.',
 ['histories', 'schedules'], 'every sequence and interleaving of subscribe, unsubscribe and client removal',
 'The table tests are sequential with a few topics.',
 [S+'topics.rs'], [('check-and-insert of levels', S+'topics.rs create_if_not_existing'), ('index/table update order', S+'topics.rs subscribe, unsubscribe, unsubscribe_all')])
prop('S11', 'Filters match topics exactly as MQTT 5 prescribes',
 'A published topic is matched by a stored filter if and only if, level by level, each filter level is equal or `+`, with a final `#` matching the parent and any number of further levels, and filters starting with a wildcard never match topics starting with `$`; of several matching filters of one client the one with the highest granted QoS is used.',
 ['inputs', 'histories'], 'every filter and every topic, of any depth',
 'Matching is recursive over unbounded depth; tests sample shallow topics and `$` topics are not tested.',
 [S+'topics.rs'], [('trie traversal', S+'topics.rs visit, collect_subs')])
prop('S12', 'Packet size limits are enforced in both directions on both transports',
 'No connection, plain or encrypted, makes the server buffer a packet larger than the configured maximum, a larger packet ends the connection, and the server never sends a client a packet larger than the configured maximum or than the maximum that client announced.',
 ['inputs', 'configurations'], 'every packet size, every configured and announced maximum, both transports',
 'No test uses a connection.',
 [C+'mqttclient.rs', C+'noiseclient.rs', C+'clientworker.rs', C+'client.rs'], [('read limit', C+'mqttclient.rs'), ('maximum negotiation', C+'clientworker.rs')])
prop('S13', 'Interrupted waits never lose or duplicate part of a packet',
 'When a client task switches between receiving from the network, and delivering queued packets, or is interrupted, no received byte and no queued packet is lost, duplicated or sent partially while the connection goes on.',
 ['schedules'], 'every interleaving of readiness of the socket and of the outgoing queue',
 'Only particular interleavings cancel a pending operation half-way.',
 [C+'clientworker.rs', C+'mqttclient.rs', C+'noiseclient.rs'], [('select between receive and queue, with only cancellation-safe operations as branches', C+'clientworker.rs listen')])
prop('S14', 'A finished connection leaves exactly its own traces removed',
 'When a connection ends for any reason its client entry disappears from the client list, and a connection that reuses a client identifier replaces the older one, which is terminated, without the older one\'s end removing the newer entry.',
 ['histories', 'schedules'], 'every history of connects, reconnects with the same identifier, and disconnects',
 'No test has two connections.',
 [C+'mod.rs', C+'clientworker.rs'], [('client registration and retirement', C+'mod.rs ClientManager')])
prop('S15', 'End of stream and errors end the connection',
 'When the peer closes the stream, sends a malformed packet or an I/O error occurs, the receive loop of that connection stops and the connection ends; it never retries for ever without waiting for new data.',
 ['fault_sequences', 'inputs'], 'every point at which the stream can end or fail',
 'No test closes a connection.',
 [C+'mqttclient.rs', C+'noiseclient.rs', C+'clientworker.rs', 'bm/src/client.rs'], [('receive loop', C+'mqttclient.rs recv')])
prop('S16', 'Encrypted connections only ever carry authenticated ciphertext',
 'On the encrypted port, after the handshake every byte written to the socket is ciphertext produced for that session, packets are decoded only from successfully authenticated plaintext and only from the bytes that plaintext has, and unauthenticated or undecodable frames end the connection.',
 ['inputs', 'histories'], 'every frame received or sent on an encrypted connection',
 'No test covers the encrypted transport.',
 [C+'noiseclient.rs'], [('frame decryption and encryption', C+'noiseclient.rs recv, send')])
prop('S17', 'Connection set-up cannot wait for ever',
 'Every wait for the peer during connection set-up, on either transport, is bounded by a time-out derived from the configured keep-alive and is interrupted by shutdown, and set-up of one connection never delays accepting others.',
 ['schedules', 'fault_sequences'], 'every peer that stalls at any point of the set-up',
 'No test stalls a peer.',
 [C+'mqttclient.rs', C+'noiseclient.rs'], [('time-out raced against set-up', C+'mqttclient.rs, noiseclient.rs')])
prop('S18', 'Every server configuration yields a working dispatcher queue',
 'For every configured dispatcher queue size, including sizes below one element, the server starts with a queue of the configured size rounded down to whole elements and at least one.',
 ['configurations'], 'every configured queue size',
 'No test starts a server.',
 [S+'lib.rs', S+'config.rs'], [('queue length computation', S+'lib.rs MqttServer::new')])
prop('S19', 'CONNACK announces what the server really does',
 'A successful CONNACK states the limits and capabilities the server enforces: the maximum QoS it grants, the configured keep-alive, no topic aliases, no subscription identifiers, no shared subscriptions, working wildcard subscriptions, and a generated client identifier if and only if the client sent none, that identifier being the one the client is registered under.',
 ['inputs', 'configurations'], 'every accepted CONNECT and every configuration',
 'No test covers the server side of CONNECT.',
 [C+'clientworker.rs', S+'cfg.rs'], [('CONNACK assembly', C+'clientworker.rs process_connect')])

prop('S20', 'The benchmark client sends and receives whole packets in order',
 'The benchmark client returns every packet the server sent it, exactly once and in order, however the bytes arrive (each decoded from the front of the bytes received and not yet taken, of which exactly its frame is taken), and every packet it sends reaches the socket whole, once and with nothing else around it, however much the socket takes at once.',
 ['inputs', 'schedules'], 'every way the bytes of a connection of the benchmark client can be split, and every state its buffers can be in',
 'The benchmark has no tests.',
 ['bm/src/client.rs'], [('receive and send of the benchmark client', 'bm/src/client.rs recv, send')])

prop('N01', 'Idle clients are disconnected after one and a half keep-alives',
 'A connected client that sends nothing for one and a half times the keep-alive announced by the server is disconnected.',
 ['schedules'], 'every connection and every silence',
 'Timing behaviour is untested.', [C+'clientworker.rs'], [('none in the code today', C+'clientworker.rs')])
prop('N02', 'Memory used for a slow subscriber is bounded',
 'The number of packets queued for a subscriber that reads slower than others publish is bounded.',
 ['schedules', 'histories'], 'every publish rate and subscriber speed',
 'Needs a sustained rate difference.', [C+'client.rs', C+'clientworker.rs'], [('none in the code today: unbounded channel', C+'clientworker.rs')])
prop('N03', 'Messages from one publisher reach one subscriber in order',
 'Messages published by one client on one connection are received by each subscriber in the order they were published.',
 ['schedules', 'histories'], 'every interleaving of publishers',
 'Ordering across tasks needs interleavings.', [S+'dispatcher.rs', C+'clientworker.rs'], [('single dispatcher task, first-in-first-out queues, same-round forwarding', S+'dispatcher.rs')])
prop('N04', 'The encrypted transport gives confidentiality and server authentication',
 'An attacker on the network can neither read nor forge packets on the encrypted port without the server\'s private key.',
 ['histories'], 'every network attacker',
 'Cryptographic strength is not testable.', [C+'noiseclient.rs', S+'cfg.rs'], [('Noise XK pattern', S+'cfg.rs')])
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + '\n')
print(len(P))
