"""Tables of the MQTT 5 standard (OASIS, 2019-03-07) used as oracles."""
KINDS = {'Connect': 0x10, 'ConnAck': 0x20, 'Publish': 0x30, 'PubAck': 0x40, 'PubRec': 0x50, 'PubRel': 0x62, 'PubComp': 0x70,
         'Subscribe': 0x82, 'SubAck': 0x90, 'Unsubscribe': 0xa2, 'UnsubAck': 0xb0, 'PingReq': 0xc0, 'PingRes': 0xd0,
         'Disconnect': 0xe0, 'Auth': 0xf0}
PUBLISH_FIRST = {0x30 | f for f in range(16) if f & 6 != 6}
_REASON = {0x00: ('success', 'normaldisconnection', 'grantedqos0'), 0x01: ('grantedqos1',), 0x02: ('grantedqos2',),
 0x04: ('disconnectwithwillmessage',), 0x10: ('nomatchingsubscribers',), 0x11: ('nosubscriptionexisted',),
 0x18: ('continueauthentication',), 0x19: ('reauthenticate',), 0x80: ('unspecifiederror',), 0x81: ('malformedpacket',),
 0x82: ('protocolerror',), 0x83: ('implementationspecificerror',), 0x84: ('unsupportedprotocolversion',),
 0x85: ('clientidentifiernotvalid',), 0x86: ('badusernameorpassword',), 0x87: ('notauthorized',), 0x88: ('serverunavailable',),
 0x89: ('serverbusy',), 0x8a: ('banned',), 0x8b: ('servershuttingdown',), 0x8c: ('badauthenticationmethod', 'badauthenicationmethod'),
 0x8d: ('keepalivetimeout',), 0x8e: ('sessiontakenover',), 0x8f: ('topicfilterinvalid',), 0x90: ('topicnameinvalid',),
 0x91: ('packetidentifierinuse',), 0x92: ('packetidentifiernotfound',), 0x93: ('receivemaximumexceeded',),
 0x94: ('topicaliasinvalid',), 0x95: ('packettoolarge',), 0x96: ('messageratetoohigh',), 0x97: ('quotaexceeded',),
 0x98: ('administrativeaction',), 0x99: ('payloadformatinvalid',), 0x9a: ('retainnotsupported',), 0x9b: ('qosnotsupported',),
 0x9c: ('useanotherserver',), 0x9d: ('servermoved',), 0x9e: ('sharedsubscriptionsnotsupported',),
 0x9f: ('connectionrateexceeded',), 0xa0: ('maximumconnecttime',), 0xa1: ('subscriptionidentifiersnotsupported',),
 0xa2: ('wildcardsubscriptionsnotsupported',)}
REASON_NAME = {n: b for b, ns in _REASON.items() for n in ns}
_PUBACK = (0, 0x10, 0x80, 0x83, 0x87, 0x90, 0x91, 0x97, 0x99)
REASONS = {
 'ConnAck': (0, 0x80, 0x81, 0x82, 0x83, 0x84, 0x85, 0x86, 0x87, 0x88, 0x89, 0x8a, 0x8c, 0x90, 0x95, 0x97, 0x99, 0x9a, 0x9b, 0x9c, 0x9d, 0x9f),
 'PubAck': _PUBACK, 'PubRec': _PUBACK, 'PubRel': (0, 0x92), 'PubComp': (0, 0x92),
 'SubAck': (0, 1, 2, 0x80, 0x83, 0x87, 0x8f, 0x91, 0x97, 0x9e, 0xa1, 0xa2),
 'UnsubAck': (0, 0x11, 0x80, 0x83, 0x87, 0x8f, 0x91),
 'Auth': (0, 0x18, 0x19),
 'Disconnect': (0, 4) + tuple(range(0x80, 0x84)) + (0x87, 0x89, 0x8b, 0x8c, 0x8d, 0x8e, 0x8f, 0x90, 0x93, 0x94, 0x95, 0x96, 0x97, 0x98, 0x99, 0x9a, 0x9b, 0x9c, 0x9d, 0x9e, 0x9f, 0xa0, 0xa1, 0xa2)}
C, CA, P, W, PA, PR, PL, PC, S, SA, U, UA, DI, AU = 'Connect ConnAck Publish Will PubAck PubRec PubRel PubComp Subscribe SubAck Unsubscribe UnsubAck Disconnect Auth'.split()
ALL = {C, CA, P, W, PA, PR, PL, PC, S, SA, U, UA, DI, AU}
# identifier -> (accepted names, wire type, may repeat, packets)
PROPS_T = {
 0x01: ('PayloadFormatIndicator', 'byte', False, {P, W}), 0x02: ('MessageExpiryInterval', 'four', False, {P, W}),
 0x03: ('ContentType', 'string', False, {P, W}), 0x08: ('ResponseTopic', 'string', False, {P, W}),
 0x09: ('CorrelationData', 'binary', False, {P, W}), 0x0b: ('SubscriptionIdentifier', 'varint', True, {P, S}),
 0x11: ('SessionExpiryInterval', 'four', False, {C, CA, DI}), 0x12: ('AssignedClientIdentifier', 'string', False, {CA}),
 0x13: ('ServerKeepAlive', 'two', False, {CA}), 0x15: ('AuthenticationMethod', 'string', False, {C, CA, AU}),
 0x16: ('AuthenticationData', 'binary', False, {C, CA, AU}), 0x17: ('RequestProblemInformation', 'byte', False, {C}),
 0x18: ('WillDelayInterval', 'four', False, {W}), 0x19: ('RequestResponseInformation', 'byte', False, {C}),
 0x1a: ('ResponseInformation', 'string', False, {CA}), 0x1c: ('ServerReference', 'string', False, {CA, DI}),
 0x1f: ('ReasonString', 'string', False, {CA, PA, PR, PL, PC, SA, UA, DI, AU}), 0x21: ('ReceiveMaximum', 'two', False, {C, CA}),
 0x22: ('TopicAliasMaximum', 'two', False, {C, CA}), 0x23: ('TopicAlias', 'two', False, {P}), 0x24: ('MaximumQoS', 'byte', False, {CA}),
 0x25: ('RetainAvailable', 'byte', False, {CA}), 0x26: ('UserProperty', 'pair', True, ALL), 0x27: ('MaximumPacketSize', 'four', False, {C, CA}),
 0x28: ('WildcardSubscriptionAvailable', 'byte', False, {CA}), 0x29: ('SubscriptionIdentifierAvailable', 'byte', False, {CA}),
 0x2a: ('SharedSubscriptionAvailable', 'byte', False, {CA})}
# byte offset of the reason code after the fixed header (None: one per entry of the payload)
REASON_OFF = {'ConnAck': 1, 'PubAck': 2, 'PubRec': 2, 'PubRel': 2, 'PubComp': 2, 'Disconnect': 0, 'Auth': 0, 'SubAck': None, 'UnsubAck': None}
# flag bits by public constant name
FLAGS = {
 'connect::ConnectFlags': {'CLEAN_START': 2, 'WILL': 4, 'WILL_QOS1': 8, 'WILL_QOS2': 16, 'WILL_RETAIN': 32, 'PASSWORD': 64, 'USERNAME': 128},
 'connack::ConnAckFlags': {'SESSION_PRESENT': 1},
 'publish::PublishFlags': {'RETAIN': 1, 'QOS1': 2, 'QOS2': 4, 'DUP': 8},
 'subscribe::SubscriptionOptions': {'QOS1': 1, 'QOS2': 2, 'NO_LOCAL': 4, 'RETAIN_AS_PUBLISHED': 8, 'RETAIN_HANDLING1': 16, 'RETAIN_HANDLING2': 32}}
QOS_SHIFT = {'connect::ConnectFlags': 3, 'publish::PublishFlags': 1, 'subscribe::SubscriptionOptions': 0}
QOS_N = {'qos0': 0, 'qos1': 1, 'qos2': 2}
RH_N = {'send': 0, 'sendifnotexisting': 1, 'donotsend': 2}
CONNECT_OK = {b for b in range(256) if not b & 1 and (b >> 3) & 3 != 3 and (b & 4 or not b & 0x38)}
SUBOPT_OK = {b for b in range(64) if b & 3 != 3 and (b >> 4) & 3 != 3}
# (packet, method) -> (bit set, or None; shift of a QoS argument)
SETTERS = {('Connect', 'set_clean_start'): 2, ('Connect', 'set_username'): 0x80, ('Connect', 'set_password'): 0x40, ('Connect', 'set_will'): 4,
           ('Connect', 'set_will_retain'): 0x20, ('Connect', 'set_will_qos'): ('qos', 3), ('ConnAck', 'set_session_present'): 1,
           ('Publish', 'set_retain'): 1, ('Publish', 'set_dup'): 8, ('Publish', 'set_qos'): ('qos', 1)}
FLAG_AT = {'Connect': 7, 'ConnAck': 0, 'Publish': -1}      # offset after the fixed header; -1: the first byte itself
