//! The data of a card, independent of the types of the library, with conversions to and from them.
use vcard4::{
    Vcard,
    parameter::*,
    property::*,
    time::{Date, Month, OffsetDateTime, PrimitiveDateTime, Time, UtcOffset},
};

#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct D {
    pub y: i32,
    pub m: u8,
    pub d: u8,
}
/// Time of day, `off` in seconds.
#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct T {
    pub h: u8,
    pub m: u8,
    pub s: u8,
    pub ns: u32,
    pub off: i32,
}
#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct DT {
    pub d: D,
    pub t: T,
}
#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum DoT {
    D(D),
    T(T),
    DT(DT),
}

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub enum Val {
    Text(String),
    /// N, ORG
    Semi(Vec<String>),
    /// CATEGORIES
    Comma(Vec<String>),
    Uri(String),
    Kind(&'static str),
    Gender(&'static str, Option<String>),
    Adr([Option<String>; 7]),
    DoT(Vec<DoT>),
    Stamp(DT),
    Offset(i32),
    Lang(String),
    PidMap(u64, String),
    Int(Vec<i64>),
    /// Bits of the floats
    Float(Vec<u64>),
    Bool(bool),
    Dates(Vec<D>),
    DateTimes(Vec<DT>),
    Times(Vec<T>),
    Stamps(Vec<DT>),
}

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub enum Tz {
    Text(String),
    Uri(String),
    Offset(i32),
}

#[derive(Debug, Clone, PartialEq, Eq, Default, Hash)]
pub struct Params {
    pub language: Option<String>,
    pub value: Option<&'static str>,
    pub pref: Option<u8>,
    pub altid: Option<String>,
    pub pid: Option<Vec<(u64, Option<u64>)>>,
    /// Known types in lower case, others with the prefix `X-`
    pub types: Option<Vec<String>>,
    pub mediatype: Option<String>,
    pub calscale: Option<String>,
    pub sort_as: Option<Vec<String>>,
    pub geo: Option<String>,
    pub tz: Option<Tz>,
    pub label: Option<String>,
    pub ext: Vec<(String, Vec<String>)>,
}

impl Params {
    pub fn is_empty(&self) -> bool {
        *self == Params::default()
    }
    pub fn count(&self) -> usize {
        self.language.is_some() as usize
            + self.value.is_some() as usize
            + self.pref.is_some() as usize
            + self.altid.is_some() as usize
            + self.pid.is_some() as usize
            + self.types.is_some() as usize
            + self.mediatype.is_some() as usize
            + self.calscale.is_some() as usize
            + self.sort_as.is_some() as usize
            + self.geo.is_some() as usize
            + self.tz.is_some() as usize
            + self.label.is_some() as usize
            + self.ext.len()
    }
}

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct Prop {
    pub group: Option<String>,
    /// Upper case for the properties of the RFC, as written for extensions
    pub name: String,
    pub params: Params,
    pub val: Val,
}

pub type Card = Vec<Prop>;

pub const NAMES: [&str; 35] = [
    "SOURCE", "KIND", "XML", "FN", "N", "NICKNAME", "PHOTO", "BDAY", "ANNIVERSARY", "GENDER", "URL", "ADR", "TITLE",
    "ROLE", "LOGO", "ORG", "MEMBER", "RELATED", "TEL", "EMAIL", "IMPP", "LANG", "TZ", "GEO", "CATEGORIES", "NOTE",
    "PRODID", "REV", "SOUND", "UID", "CLIENTPIDMAP", "KEY", "FBURL", "CALADRURI", "CALURI",
];
/// Parameters with a meaning of their own.
pub const PARAM_NAMES: [&str; 14] = [
    "LANGUAGE", "VALUE", "PREF", "ALTID", "PID", "TYPE", "MEDIATYPE", "CALSCALE", "SORT-AS", "GEO", "TZ", "LABEL",
    "CHARSET", "ENCODING",
];
pub const SINGLE: [&str; 8] = ["KIND", "N", "BDAY", "ANNIVERSARY", "GENDER", "PRODID", "REV", "UID"];
/// Properties that may have the TYPE parameter (RFC 6350 section 5.6 with the list of the library).
pub const TYPED: [&str; 23] = [
    "FN", "NICKNAME", "PHOTO", "ADR", "TEL", "EMAIL", "IMPP", "LANG", "TZ", "GEO", "TITLE", "ROLE", "LOGO", "ORG",
    "RELATED", "CATEGORIES", "NOTE", "SOUND", "URL", "KEY", "FBURL", "CALADRURI", "CALURI",
];
pub const VALUE_TYPES: [&str; 12] = [
    "text", "uri", "date", "time", "date-time", "date-and-or-time", "timestamp", "boolean", "integer", "float",
    "utc-offset", "language-tag",
];
pub const TEL_TYPES: [&str; 7] = ["text", "voice", "fax", "cell", "video", "pager", "textphone"];
pub const REL_TYPES: [&str; 20] = [
    "contact", "acquaintance", "friend", "met", "co-worker", "colleague", "co-resident", "neighbor", "child", "parent",
    "sibling", "spouse", "kin", "muse", "crush", "date", "sweetheart", "me", "agent", "emergency",
];
pub const KINDS: [&str; 4] = ["individual", "group", "org", "location"];
pub const SEXES: [&str; 6] = ["", "M", "F", "O", "N", "U"];

/// Canonical position of a property kind.
pub fn rank(name: &str) -> usize {
    NAMES.iter().position(|n| *n == name).unwrap_or(NAMES.len())
}
pub fn canonical(card: &mut Card) {
    card.sort_by_key(|p| rank(&p.name));
}

// To the types of the library

pub fn offset(secs: i32) -> UtcOffset {
    UtcOffset::from_whole_seconds(secs).unwrap()
}
pub fn date(d: D) -> Date {
    Date::from_calendar_date(d.y, Month::try_from(d.m).unwrap(), d.d).unwrap()
}
pub fn time(t: T) -> (Time, UtcOffset) {
    (Time::from_hms_nano(t.h, t.m, t.s, t.ns).unwrap(), offset(t.off))
}
pub fn odt(d: DT) -> OffsetDateTime {
    let (t, o) = time(d.t);
    PrimitiveDateTime::new(date(d.d), t).assume_offset(o)
}
pub fn datetime(d: DT) -> vcard4::DateTime {
    odt(d).into()
}
pub fn dot(d: &DoT) -> DateAndOrTime {
    match *d {
        DoT::D(d) => DateAndOrTime::Date(date(d).into()),
        DoT::T(t) => DateAndOrTime::Time(time(t)),
        DoT::DT(t) => DateAndOrTime::DateTime(datetime(t)),
    }
}
pub fn uri(s: &str) -> vcard4::Uri {
    s.parse().unwrap_or_else(|_| panic!("generated URI is not valid: {s}"))
}
pub fn value_type(s: &str) -> ValueType {
    match s {
        "text" => ValueType::Text,
        "uri" => ValueType::Uri,
        "date" => ValueType::Date,
        "time" => ValueType::Time,
        "date-time" => ValueType::DateTime,
        "date-and-or-time" => ValueType::DateAndOrTime,
        "timestamp" => ValueType::Timestamp,
        "boolean" => ValueType::Boolean,
        "integer" => ValueType::Integer,
        "float" => ValueType::Float,
        "utc-offset" => ValueType::UtcOffset,
        "language-tag" => ValueType::LanguageTag,
        _ => panic!("value type {s}"),
    }
}
pub fn tel_type(s: &str) -> Option<TelephoneType> {
    Some(match s {
        "text" => TelephoneType::Text,
        "voice" => TelephoneType::Voice,
        "fax" => TelephoneType::Fax,
        "cell" => TelephoneType::Cell,
        "video" => TelephoneType::Video,
        "pager" => TelephoneType::Pager,
        "textphone" => TelephoneType::TextPhone,
        _ => return None,
    })
}
pub fn rel_type(s: &str) -> Option<RelatedType> {
    Some(match s {
        "contact" => RelatedType::Contact,
        "acquaintance" => RelatedType::Acquaintance,
        "friend" => RelatedType::Friend,
        "met" => RelatedType::Met,
        "co-worker" => RelatedType::CoWorker,
        "colleague" => RelatedType::Colleague,
        "co-resident" => RelatedType::CoResident,
        "neighbor" => RelatedType::Neighbor,
        "child" => RelatedType::Child,
        "parent" => RelatedType::Parent,
        "sibling" => RelatedType::Sibling,
        "spouse" => RelatedType::Spouse,
        "kin" => RelatedType::Kin,
        "muse" => RelatedType::Muse,
        "crush" => RelatedType::Crush,
        "date" => RelatedType::Date,
        "sweetheart" => RelatedType::Sweetheart,
        "me" => RelatedType::Me,
        "agent" => RelatedType::Agent,
        "emergency" => RelatedType::Emergency,
        _ => return None,
    })
}
pub fn type_param(s: &str) -> TypeParameter {
    match s {
        "home" => TypeParameter::Home,
        "work" => TypeParameter::Work,
        _ => {
            if let Some(t) = tel_type(s) {
                TypeParameter::Telephone(t)
            } else if let Some(r) = rel_type(s) {
                TypeParameter::Related(r)
            } else {
                TypeParameter::Extension(s.strip_prefix("X-").expect("X-").to_string())
            }
        }
    }
}
pub fn kind(s: &str) -> Kind {
    match s {
        "individual" => Kind::Individual,
        "group" => Kind::Group,
        "org" => Kind::Org,
        "location" => Kind::Location,
        _ => panic!("kind {s}"),
    }
}
pub fn sex(s: &str) -> Sex {
    match s {
        "" => Sex::None,
        "M" => Sex::Male,
        "F" => Sex::Female,
        "O" => Sex::Other,
        "N" => Sex::NotApplicable,
        "U" => Sex::Unknown,
        _ => panic!("sex {s}"),
    }
}
pub fn params(p: &Params) -> Option<Parameters> {
    if p.is_empty() {
        return None;
    }
    let mut r = Parameters::default();
    // The target types are strings or, with the features, parsed types
    r.language = p.language.as_ref().map(|s| s.parse().expect("language tag"));
    r.value = p.value.map(value_type);
    r.pref = p.pref;
    r.alt_id = p.altid.clone();
    r.pid = p.pid.as_ref().map(|v| v.iter().map(|(a, b)| Pid { local: *a, source: *b }).collect());
    r.types = p.types.as_ref().map(|v| v.iter().map(|s| type_param(s)).collect());
    r.media_type = p.mediatype.as_ref().map(|s| s.parse().expect("media type"));
    r.calscale = p.calscale.clone();
    r.sort_as = p.sort_as.clone();
    r.geo = p.geo.as_ref().map(|s| uri(s));
    r.timezone = p.tz.as_ref().map(|t| match t {
        Tz::Text(s) => TimeZoneParameter::Text(s.clone()),
        Tz::Uri(s) => TimeZoneParameter::Uri(uri(s)),
        Tz::Offset(o) => TimeZoneParameter::UtcOffset(offset(*o)),
    });
    r.label = p.label.clone();
    if !p.ext.is_empty() {
        r.extensions = Some(p.ext.clone());
    }
    Some(r)
}
pub fn address(a: &[Option<String>; 7]) -> DeliveryAddress {
    let mut r = DeliveryAddress::default();
    r.po_box = a[0].clone();
    r.extended_address = a[1].clone();
    r.street_address = a[2].clone();
    r.locality = a[3].clone();
    r.region = a[4].clone();
    r.postal_code = a[5].clone();
    r.country_name = a[6].clone();
    r
}
pub fn any(p: &Prop) -> AnyProperty {
    match &p.val {
        Val::Text(s) => AnyProperty::Text(s.clone()),
        Val::Int(v) => AnyProperty::Integer(v.clone()),
        Val::Float(v) => AnyProperty::Float(v.iter().map(|b| f64::from_bits(*b)).collect()),
        Val::Bool(b) => AnyProperty::Boolean(*b),
        Val::Dates(v) => AnyProperty::Date(v.iter().map(|d| date(*d).into()).collect()),
        Val::DateTimes(v) => AnyProperty::DateTime(v.iter().map(|d| datetime(*d)).collect()),
        Val::Times(v) => AnyProperty::Time(v.iter().map(|t| time(*t)).collect()),
        Val::DoT(v) => AnyProperty::DateAndOrTime(v.iter().map(dot).collect()),
        Val::Stamps(v) => AnyProperty::Timestamp(v.iter().map(|d| datetime(*d)).collect()),
        Val::Uri(s) => AnyProperty::Uri(uri(s)),
        Val::Offset(o) => AnyProperty::UtcOffset(offset(*o)),
        Val::Lang(s) => AnyProperty::Language(s.parse().expect("language tag")),
        v => panic!("extension value {v:?}"),
    }
}

fn text_p(p: &Prop) -> TextProperty {
    match &p.val {
        Val::Text(s) => TextProperty { group: p.group.clone(), value: s.clone(), parameters: params(&p.params) },
        v => panic!("{} {v:?}", p.name),
    }
}
fn uri_p(p: &Prop) -> UriProperty {
    match &p.val {
        Val::Uri(s) => UriProperty { group: p.group.clone(), value: uri(s), parameters: params(&p.params) },
        v => panic!("{} {v:?}", p.name),
    }
}
fn text_or_uri(p: &Prop) -> TextOrUriProperty {
    match &p.val {
        Val::Text(_) => TextOrUriProperty::Text(text_p(p)),
        _ => TextOrUriProperty::Uri(uri_p(p)),
    }
}
fn list_p(p: &Prop) -> TextListProperty {
    let (value, delimiter) = match &p.val {
        Val::Semi(v) => (v.clone(), TextListDelimiter::SemiColon),
        Val::Comma(v) => (v.clone(), TextListDelimiter::Comma),
        v => panic!("{} {v:?}", p.name),
    };
    TextListProperty { group: p.group.clone(), value, parameters: params(&p.params), delimiter }
}
fn dot_p(p: &Prop) -> DateTimeOrTextProperty {
    match &p.val {
        Val::Text(_) => DateTimeOrTextProperty::Text(text_p(p)),
        Val::DoT(v) => DateTimeOrTextProperty::DateTime(DateAndOrTimeProperty {
            group: p.group.clone(),
            value: v.iter().map(dot).collect(),
            parameters: params(&p.params),
        }),
        v => panic!("{} {v:?}", p.name),
    }
}

/// Build the card through the public fields.
pub fn build(card: &[Prop]) -> Vcard {
    let mut c = Vcard::default();
    for p in card {
        let group = p.group.clone();
        let parameters = params(&p.params);
        match &p.name[..] {
            "SOURCE" => c.source.push(uri_p(p)),
            "KIND" => {
                let Val::Kind(k) = &p.val else { panic!() };
                c.kind = Some(KindProperty { group, value: kind(k), parameters })
            }
            "XML" => c.xml.push(text_p(p)),
            "FN" => c.formatted_name.push(text_p(p)),
            "N" => c.name = Some(list_p(p)),
            "NICKNAME" => c.nickname.push(text_p(p)),
            "PHOTO" => c.photo.push(text_or_uri(p)),
            "BDAY" => c.bday = Some(dot_p(p)),
            "ANNIVERSARY" => c.anniversary = Some(dot_p(p)),
            "GENDER" => {
                let Val::Gender(s, i) = &p.val else { panic!() };
                c.gender =
                    Some(GenderProperty { group, value: Gender { sex: sex(s), identity: i.clone() }, parameters })
            }
            "URL" => c.url.push(uri_p(p)),
            "ADR" => {
                let Val::Adr(a) = &p.val else { panic!() };
                c.address.push(AddressProperty { group, value: address(a), parameters })
            }
            "TITLE" => c.title.push(text_p(p)),
            "ROLE" => c.role.push(text_p(p)),
            "LOGO" => c.logo.push(uri_p(p)),
            "ORG" => c.org.push(list_p(p)),
            "MEMBER" => c.member.push(uri_p(p)),
            "RELATED" => c.related.push(text_or_uri(p)),
            "TEL" => c.tel.push(text_or_uri(p)),
            "EMAIL" => c.email.push(text_p(p)),
            "IMPP" => c.impp.push(uri_p(p)),
            "LANG" => {
                let Val::Lang(s) = &p.val else { panic!() };
                c.lang.push(LanguageProperty { group, value: s.parse().expect("language tag"), parameters })
            }
            "TZ" => c.timezone.push(match &p.val {
                Val::Text(_) => TimeZoneProperty::Text(text_p(p)),
                Val::Uri(_) => TimeZoneProperty::Uri(uri_p(p)),
                Val::Offset(o) => {
                    TimeZoneProperty::UtcOffset(UtcOffsetProperty { group, value: offset(*o), parameters })
                }
                v => panic!("TZ {v:?}"),
            }),
            "GEO" => c.geo.push(uri_p(p)),
            "CATEGORIES" => c.categories.push(list_p(p)),
            "NOTE" => c.note.push(text_p(p)),
            "PRODID" => c.prod_id = Some(text_p(p)),
            "REV" => {
                let Val::Stamp(d) = &p.val else { panic!() };
                c.rev = Some(DateTimeProperty { group, value: datetime(*d), parameters })
            }
            "SOUND" => c.sound.push(uri_p(p)),
            "UID" => c.uid = Some(text_or_uri(p)),
            "CLIENTPIDMAP" => {
                let Val::PidMap(n, u) = &p.val else { panic!() };
                c.client_pid_map.push(ClientPidMapProperty {
                    group,
                    value: ClientPidMap { source: *n, uri: uri(u) },
                    parameters,
                })
            }
            "KEY" => c.key.push(text_or_uri(p)),
            "FBURL" => c.fburl.push(uri_p(p)),
            "CALADRURI" => c.cal_adr_uri.push(uri_p(p)),
            "CALURI" => c.cal_uri.push(uri_p(p)),
            _ => c.extensions.push(ExtensionProperty { name: p.name.clone(), group, value: any(p), parameters }),
        }
    }
    c
}

// From the types of the library

pub fn l_date(d: &Date) -> D {
    D { y: d.year(), m: d.month() as u8, d: d.day() }
}
pub fn l_time(t: &Time, o: &UtcOffset) -> T {
    T { h: t.hour(), m: t.minute(), s: t.second(), ns: t.nanosecond(), off: o.whole_seconds() }
}
pub fn l_odt(d: &OffsetDateTime) -> DT {
    DT { d: l_date(&d.date()), t: l_time(&d.time(), &d.offset()) }
}
pub fn l_dt(d: &vcard4::DateTime) -> DT {
    l_odt(d.as_ref())
}
pub fn l_dot(d: &DateAndOrTime) -> DoT {
    match d {
        DateAndOrTime::Date(d) => DoT::D(l_date(d.as_ref())),
        DateAndOrTime::Time((t, o)) => DoT::T(l_time(t, o)),
        DateAndOrTime::DateTime(d) => DoT::DT(l_dt(d)),
    }
}
pub fn l_value_type(v: &ValueType) -> &'static str {
    match v {
        ValueType::Text => "text",
        ValueType::Uri => "uri",
        ValueType::Date => "date",
        ValueType::Time => "time",
        ValueType::DateTime => "date-time",
        ValueType::DateAndOrTime => "date-and-or-time",
        ValueType::Timestamp => "timestamp",
        ValueType::Boolean => "boolean",
        ValueType::Integer => "integer",
        ValueType::Float => "float",
        ValueType::UtcOffset => "utc-offset",
        ValueType::LanguageTag => "language-tag",
    }
}
pub fn l_type(t: &TypeParameter) -> String {
    let find = |names: &[&'static str], f: &dyn Fn(&str) -> bool| {
        names.iter().find(|s| f(s)).expect("known type").to_string()
    };
    match t {
        TypeParameter::Home => "home".into(),
        TypeParameter::Work => "work".into(),
        TypeParameter::Telephone(t) => find(&TEL_TYPES, &|s| tel_type(s).as_ref() == Some(t)),
        TypeParameter::Related(t) => find(&REL_TYPES, &|s| rel_type(s).as_ref() == Some(t)),
        TypeParameter::Extension(s) => format!("X-{s}"),
    }
}
pub fn l_params(p: Option<&Parameters>) -> Params {
    let Some(p) = p else { return Params::default() };
    Params {
        language: p.language.as_ref().map(|s| s.to_string()),
        value: p.value.as_ref().map(l_value_type),
        pref: p.pref,
        altid: p.alt_id.clone(),
        pid: p.pid.as_ref().map(|v| v.iter().map(|p| (p.local, p.source)).collect()),
        types: p.types.as_ref().map(|v| v.iter().map(l_type).collect()),
        mediatype: p.media_type.as_ref().map(|s| s.to_string()),
        calscale: p.calscale.clone(),
        sort_as: p.sort_as.clone(),
        geo: p.geo.as_ref().map(|s| s.to_string()),
        tz: p.timezone.as_ref().map(|t| match t {
            TimeZoneParameter::Text(s) => Tz::Text(s.clone()),
            TimeZoneParameter::Uri(u) => Tz::Uri(u.to_string()),
            TimeZoneParameter::UtcOffset(o) => Tz::Offset(o.whole_seconds()),
        }),
        label: p.label.clone(),
        ext: p.extensions.clone().unwrap_or_default(),
    }
}
pub fn l_kind(k: &Kind) -> &'static str {
    KINDS.iter().find(|s| kind(s) == *k).unwrap()
}
pub fn l_sex(k: &Sex) -> &'static str {
    SEXES.iter().find(|s| sex(s) == *k).unwrap()
}
pub fn l_address(a: &DeliveryAddress) -> [Option<String>; 7] {
    [
        a.po_box.clone(),
        a.extended_address.clone(),
        a.street_address.clone(),
        a.locality.clone(),
        a.region.clone(),
        a.postal_code.clone(),
        a.country_name.clone(),
    ]
}
pub fn l_any(v: &AnyProperty) -> Val {
    match v {
        AnyProperty::Text(s) => Val::Text(s.clone()),
        AnyProperty::Integer(v) => Val::Int(v.clone()),
        AnyProperty::Float(v) => Val::Float(v.iter().map(|f| f.to_bits()).collect()),
        AnyProperty::Boolean(b) => Val::Bool(*b),
        AnyProperty::Date(v) => Val::Dates(v.iter().map(|d| l_date(d.as_ref())).collect()),
        AnyProperty::DateTime(v) => Val::DateTimes(v.iter().map(l_dt).collect()),
        AnyProperty::Time(v) => Val::Times(v.iter().map(|(t, o)| l_time(t, o)).collect()),
        AnyProperty::DateAndOrTime(v) => Val::DoT(v.iter().map(l_dot).collect()),
        AnyProperty::Timestamp(v) => Val::Stamps(v.iter().map(l_dt).collect()),
        AnyProperty::Uri(u) => Val::Uri(u.to_string()),
        AnyProperty::UtcOffset(o) => Val::Offset(o.whole_seconds()),
        AnyProperty::Language(s) => Val::Lang(s.to_string()),
    }
}

struct Out(Card);
impl Out {
    fn add(&mut self, name: &str, group: &Option<String>, p: &Option<Parameters>, val: Val) {
        self.0.push(Prop { group: group.clone(), name: name.into(), params: l_params(p.as_ref()), val });
    }
    fn text(&mut self, n: &str, p: &TextProperty) {
        self.add(n, &p.group, &p.parameters, Val::Text(p.value.clone()))
    }
    fn uri(&mut self, n: &str, p: &UriProperty) {
        self.add(n, &p.group, &p.parameters, Val::Uri(p.value.to_string()))
    }
    fn text_or_uri(&mut self, n: &str, p: &TextOrUriProperty) {
        match p {
            TextOrUriProperty::Text(p) => self.text(n, p),
            TextOrUriProperty::Uri(p) => self.uri(n, p),
        }
    }
    fn list(&mut self, n: &str, p: &TextListProperty) {
        let v = p.value.clone();
        let v = match p.delimiter {
            TextListDelimiter::Comma => Val::Comma(v),
            TextListDelimiter::SemiColon => Val::Semi(v),
        };
        self.add(n, &p.group, &p.parameters, v)
    }
    fn dot(&mut self, n: &str, p: &DateTimeOrTextProperty) {
        match p {
            DateTimeOrTextProperty::Text(p) => self.text(n, p),
            DateTimeOrTextProperty::DateTime(p) => {
                self.add(n, &p.group, &p.parameters, Val::DoT(p.value.iter().map(l_dot).collect()))
            }
        }
    }
}

/// The data of a card, in the order of `NAMES`.
pub fn logical(c: &Vcard) -> Card {
    let mut o = Out(Vec::new());
    c.source.iter().for_each(|p| o.uri("SOURCE", p));
    c.kind.iter().for_each(|p| o.add("KIND", &p.group, &p.parameters, Val::Kind(l_kind(&p.value))));
    c.xml.iter().for_each(|p| o.text("XML", p));
    c.formatted_name.iter().for_each(|p| o.text("FN", p));
    c.name.iter().for_each(|p| o.list("N", p));
    c.nickname.iter().for_each(|p| o.text("NICKNAME", p));
    c.photo.iter().for_each(|p| o.text_or_uri("PHOTO", p));
    c.bday.iter().for_each(|p| o.dot("BDAY", p));
    c.anniversary.iter().for_each(|p| o.dot("ANNIVERSARY", p));
    c.gender.iter().for_each(|p| {
        o.add("GENDER", &p.group, &p.parameters, Val::Gender(l_sex(&p.value.sex), p.value.identity.clone()))
    });
    c.url.iter().for_each(|p| o.uri("URL", p));
    c.address.iter().for_each(|p| o.add("ADR", &p.group, &p.parameters, Val::Adr(l_address(&p.value))));
    c.title.iter().for_each(|p| o.text("TITLE", p));
    c.role.iter().for_each(|p| o.text("ROLE", p));
    c.logo.iter().for_each(|p| o.uri("LOGO", p));
    c.org.iter().for_each(|p| o.list("ORG", p));
    c.member.iter().for_each(|p| o.uri("MEMBER", p));
    c.related.iter().for_each(|p| o.text_or_uri("RELATED", p));
    c.tel.iter().for_each(|p| o.text_or_uri("TEL", p));
    c.email.iter().for_each(|p| o.text("EMAIL", p));
    c.impp.iter().for_each(|p| o.uri("IMPP", p));
    c.lang.iter().for_each(|p| o.add("LANG", &p.group, &p.parameters, Val::Lang(p.value.to_string())));
    c.timezone.iter().for_each(|p| match p {
        TimeZoneProperty::Text(p) => o.text("TZ", p),
        TimeZoneProperty::Uri(p) => o.uri("TZ", p),
        TimeZoneProperty::UtcOffset(p) => {
            o.add("TZ", &p.group, &p.parameters, Val::Offset(p.value.whole_seconds()))
        }
    });
    c.geo.iter().for_each(|p| o.uri("GEO", p));
    c.categories.iter().for_each(|p| o.list("CATEGORIES", p));
    c.note.iter().for_each(|p| o.text("NOTE", p));
    c.prod_id.iter().for_each(|p| o.text("PRODID", p));
    c.rev.iter().for_each(|p| o.add("REV", &p.group, &p.parameters, Val::Stamp(l_dt(&p.value))));
    c.sound.iter().for_each(|p| o.uri("SOUND", p));
    c.uid.iter().for_each(|p| o.text_or_uri("UID", p));
    c.client_pid_map.iter().for_each(|p| {
        o.add("CLIENTPIDMAP", &p.group, &p.parameters, Val::PidMap(p.value.source, p.value.uri.to_string()))
    });
    c.key.iter().for_each(|p| o.text_or_uri("KEY", p));
    c.fburl.iter().for_each(|p| o.uri("FBURL", p));
    c.cal_adr_uri.iter().for_each(|p| o.uri("CALADRURI", p));
    c.cal_uri.iter().for_each(|p| o.uri("CALURI", p));
    c.extensions.iter().for_each(|p| o.add(&p.name, &p.group, &p.parameters, l_any(&p.value)));
    o.0
}

/// First difference of two cards, readable.
pub fn diff(got: &[Prop], want: &[Prop]) -> Option<String> {
    if got == want {
        return None;
    }
    for (i, (g, w)) in got.iter().zip(want).enumerate() {
        if g != w {
            return Some(format!("property {i}: got {g:?}, expected {w:?}"));
        }
    }
    Some(format!(
        "got {} properties, expected {}: extra {:?}, missing {:?}",
        got.len(),
        want.len(),
        got.get(want.len()),
        want.get(got.len())
    ))
}
pub fn diff_cards(got: &[Card], want: &[Card]) -> Option<String> {
    if got.len() != want.len() {
        return Some(format!("got {} cards, expected {}", got.len(), want.len()));
    }
    got.iter().zip(want).enumerate().find_map(|(i, (g, w))| diff(g, w).map(|d| format!("card {i}: {d}")))
}

/// Whether any time has a fraction of a second, which cannot be printed.
pub fn strip_fractions(card: &mut Card) -> bool {
    fn t(t: &mut T) -> bool {
        std::mem::take(&mut t.ns) != 0
    }
    let mut any = false;
    for p in card {
        match &mut p.val {
            Val::DoT(v) => v.iter_mut().for_each(|d| match d {
                DoT::T(x) => any |= t(x),
                DoT::DT(x) => any |= t(&mut x.t),
                DoT::D(_) => {}
            }),
            Val::Stamp(d) => any |= t(&mut d.t),
            Val::DateTimes(v) | Val::Stamps(v) => v.iter_mut().for_each(|d| any |= t(&mut d.t)),
            Val::Times(v) => v.iter_mut().for_each(|d| any |= t(d)),
            _ => {}
        }
    }
    any
}
