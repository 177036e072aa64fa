BENIGN = []
def B(id, *edits, props=None): BENIGN.append(dict(id=id, edits=edits, props=props))
T = 'packet/src/topic.rs'; D = 'packet/src/data.rs'; PR = 'packet/src/props.rs'; PU = 'packet/src/publish.rs'
src = open('/repo/' + T).read()
a = src.index('fn is_valid_topic'); b = src.index('impl MqttTopic {')
VAL = src[a:b]
TP = ['P03', 'P11', 'P12', 'P01', 'P05']
B('valid-split', (T, VAL, '''fn is_valid_topic(topic: &str) -> bool {
    let mut levels = topic.split('/').peekable();
    while let Some(level) = levels.next() {
        if level.contains('#') && (level != "#" || levels.peek().is_some()) {
            return false;
        }
        if level.contains('+') && level != "+" {
            return false;
        }
    }
    true
}

'''), props=TP)
B('valid-split-count', (T, VAL, '''fn is_valid_topic(topic: &str) -> bool {
    let levels = topic.split('/').count();
    topic.split('/').enumerate().all(|(i, level)| match level {
        "+" => true,
        "#" => i + 1 == levels,
        _ => !level.contains(|c| c == '#' || c == '+'),
    })
}

'''), props=TP)
B('valid-bytes', (T, VAL, '''fn is_valid_topic(topic: &str) -> bool {
    let mut prev = b'/';
    let mut seen_hash = false;
    for b in topic.bytes() {
        if seen_hash {
            return false;
        }
        if (b == b'#' || b == b'+') && prev != b'/' {
            return false;
        }
        if prev == b'+' && b != b'/' {
            return false;
        }
        seen_hash = b == b'#';
        prev = b;
    }
    true
}

'''), props=TP)
B('valid-index', (T, VAL, '''fn is_valid_topic(topic: &str) -> bool {
    let b = topic.as_bytes();
    for i in 0..b.len() {
        if b[i] == b'#' && ((i > 0 && b[i - 1] != b'/') || i + 1 != b.len()) {
            return false;
        }
        if b[i] == b'+' && ((i > 0 && b[i - 1] != b'/') || (i + 1 < b.len() && b[i + 1] != b'/')) {
            return false;
        }
    }
    true
}

'''), props=TP)
B('valid-method', (T, VAL, ''), (T, '''impl MqttTopic {
''', '''impl MqttTopic {
    fn check(topic: &str) -> Result<(), DataParseError> {
        let mut iter = topic.chars().peekable();
        let mut prev = None;
        while let Some(c) = iter.next() {
            let at_start = prev.is_none() || prev == Some('/');
            let next = iter.peek().copied();
            let ok = match c {
                '#' => at_start && next.is_none(),
                '+' => at_start && (next.is_none() || next == Some('/')),
                _ => true,
            };
            if !ok {
                return Err(DataParseError::BadTopic);
            }
            prev = Some(c);
        }
        Ok(())
    }
'''), (T, '''        if !is_valid_topic(&topic) {
            Err(DataParseError::BadTopic)
        } else {
            Ok(MqttTopic(MqttUtf8String::new(topic)?))
        }''', '''        Self::check(&topic)?;
        let s = MqttUtf8String::new(topic)?;
        Ok(MqttTopic(s))'''), (T, '''        if !is_valid_topic(string.inner()) {
            Err(DataParseError::BadTopic)
        } else {
            Ok(MqttTopic(string))
        }''', '''        MqttTopic::check(string.inner())?;
        Ok(MqttTopic(string))'''), props=TP)
B('valid-first', (T, '''        if !is_valid_topic(&topic) {
            Err(DataParseError::BadTopic)
        } else {
            Ok(MqttTopic(MqttUtf8String::new(topic)?))
        }''', '''        let string = MqttUtf8String::new(topic)?;
        if is_valid_topic(string.inner()) {
            Ok(MqttTopic(string))
        } else {
            Err(DataParseError::BadTopic)
        }'''), props=TP)
B('wild-contains', (T, '''self.inner().chars().any(|c| "#+".contains(c))''', '''self.inner().contains(|c: char| c == '#' || c == '+')'''), props=TP)
B('wild-bytes', (T, '''self.inner().chars().any(|c| "#+".contains(c))''', '''self.inner().bytes().any(|b| matches!(b, b'#' | b'+'))'''), props=TP)
B('wild-two', (T, '''self.inner().chars().any(|c| "#+".contains(c))''', '''let t = self.inner();
        t.contains('#') || t.contains('+')'''), props=TP)
B('wild-arr', (T, '''self.inner().chars().any(|c| "#+".contains(c))''', '''self.inner().contains(&['#', '+'][..])'''), props=TP)
B('verify-loop', (D, '''        match s.find(|c: char| c.is_control() || c == '\\u{0000}') {
            None => Ok(()),
            Some(_) => Err(DataParseError::BadMqttUtf8String),
        }''', '''        for c in s.chars() {
            if c.is_control() {
                return Err(DataParseError::BadMqttUtf8String);
            }
        }
        Ok(())'''), props=TP)
B('verify-any', (D, '''        match s.find(|c: char| c.is_control() || c == '\\u{0000}') {
            None => Ok(()),
            Some(_) => Err(DataParseError::BadMqttUtf8String),
        }''', '''        if s.chars().any(|c| matches!(c, '\\u{0}'..='\\u{1f}' | '\\u{7f}'..='\\u{9f}')) {
            Err(DataParseError::BadMqttUtf8String)
        } else {
            Ok(())
        }'''), props=TP)
B('verify-all', (D, '''        match s.find(|c: char| c.is_control() || c == '\\u{0000}') {
            None => Ok(()),
            Some(_) => Err(DataParseError::BadMqttUtf8String),
        }''', '''        let fine = s.len() < 65536 && s.chars().all(|c| !c.is_control());
        fine.then(|| ()).ok_or(DataParseError::BadMqttUtf8String)'''), props=TP)
B('verify-helper', (D, '''        MqttUtf8String::verify(&s)?;
        Ok(MqttUtf8String { s })''', '''        MqttUtf8String::verify(&s).map(|_| MqttUtf8String { s })'''), props=TP)
B('publish-is-wild', (PU, '''        if topic_name.is_wildcard() {
            return Err(DataParseError::BadTopic);
        }
        let packet_identifier''', '''        match topic_name.is_wildcard() {
            true => return Err(DataParseError::BadTopic),
            false => {}
        }
        let packet_identifier'''), props=TP)
B('varint-range', (D, 'MqttVariableBytesInt::verify(i)?;\n        Ok(MqttVariableBytesInt { i })', '''if (0..=268_435_455).contains(&i) {
            Ok(MqttVariableBytesInt { i })
        } else {
            Err(DataParseError::BadMqttVariableBytesInt)
        }'''), props=['P11', 'P03', 'P02', 'P01'])
