//! Flattens a tree into events. Written from what each field is documented to hold and from the
//! grammar the crate supports; nothing here looks at the source text.
use crate::ev::*;
use sql_parse::verif::*;
use sql_parse::{Identifier, OptSpanned, QualifiedName, Span, Spanned};

macro_rules! tags {
    ($($n:ident)*) => {
        #[allow(non_camel_case_types, clippy::upper_case_acronyms)]
        #[derive(Clone, Copy)]
        #[repr(u16)]
        pub enum T { NONE, $($n),* }
        pub const TAG_NAMES: &[&str] = &["NONE", $(stringify!($n)),*];
    };
}
tags! {
    EXPR BINARY UNARY SUBQUERY LITERAL FUNCTION WINDOW IDENTIFIER INTERVAL EXISTS EXTRACT IN IS CASE_EXPR WHEN_EXPR
    CAST COUNT GROUP_CONCAT VARIABLE TIMESTAMPADD TIMESTAMPDIFF INVALID_EXPR WINDOW_SPEC IDENT_PART
    SELECT SELECT_EXPR TABLE_REF QUERY_REF JOIN JOIN_SPEC INDEX_HINT LOCKING ORDER LIMIT
    QNAME DATA_TYPE TYPE PROPERTY
    INSERT INSERT_PAIR INSERT_SET ON_DUPLICATE ON_CONFLICT CONFLICT_ACTION CONFLICT_TARGET
    UPDATE DELETE RENAME RENAME_PAIR TRUNCATE WITH WITH_BLOCK SET IF IF_COND RETURN SIGNAL STATEMENT
    BLOCK DO UNION UNION_WITH CASE_STMT WHEN_STMT COPY STDIN
    ALTER ALTER_SPEC ALTER_COLUMN INDEX_COL INDEX_OPTION FOREIGN_ON
    CREATE_TABLE CREATE_VIEW CREATE_FUNCTION CREATE_TRIGGER CREATE_TYPE CREATE_INDEX CREATE_OPTION TABLE_OPTION
    COLUMN_DEF CONSTRAINT_DEF FN_CHARACTERISTIC PARAM
    DROP_TABLE DROP_VIEW DROP_DATABASE DROP_EVENT DROP_FUNCTION DROP_PROCEDURE DROP_SERVER DROP_TRIGGER DROP_INDEX
}
use T::*;

impl W {
    fn nd(&mut self, t: T, s: &impl Spanned) {
        self.node(t as u16, s)
    }
    fn nd0(&mut self, t: T) {
        self.enter0(t as u16)
    }
    fn end(&mut self, t: T) {
        self.exit(t as u16)
    }
    fn ids(&mut self, v: &[Identifier]) {
        for (i, x) in v.iter().enumerate() {
            self.sep(i);
            self.id(x)
        }
    }
    fn qname(&mut self, q: &QualifiedName) {
        self.nd(QNAME, q);
        for (i, dot) in &q.prefix {
            self.id(i);
            self.kw(".", dot);
        }
        self.id(&q.identifier);
        self.end(QNAME)
    }
    fn qnames(&mut self, v: &[QualifiedName]) {
        for (i, x) in v.iter().enumerate() {
            self.sep(i);
            self.qname(x)
        }
    }
    fn order_flag(&mut self, o: &OrderFlag) {
        match o {
            OrderFlag::Asc(s) => self.kw("ASC", s),
            OrderFlag::Desc(s) => self.kw("DESC", s),
            OrderFlag::None => (),
        }
    }
    fn order(&mut self, o: &(Span, alloc::vec::Vec<(Expression, OrderFlag)>)) {
        self.nd0(ORDER);
        self.kw("ORDER BY", &o.0);
        for (i, (e, f)) in o.1.iter().enumerate() {
            self.sep(i);
            self.expr(e);
            self.order_flag(f)
        }
        self.end(ORDER)
    }
    fn limit(&mut self, l: &(Span, Option<Expression>, Expression)) {
        self.nd0(LIMIT);
        self.kw("LIMIT", &l.0);
        match &l.1 {
            Some(off) if off.span().start < l.2.span().start => {
                self.expr(off);
                self.here(",");
                self.expr(&l.2)
            }
            Some(off) => {
                self.expr(&l.2);
                self.here("OFFSET");
                self.expr(off)
            }
            None => self.expr(&l.2),
        }
        self.end(LIMIT)
    }
    fn where_(&mut self, w: &Option<(Expression, Span)>, word: &'static str) {
        if let Some((e, s)) = w {
            self.kw(word, s);
            self.expr(e)
        }
    }
    fn returning(&mut self, r: &Option<(Span, alloc::vec::Vec<SelectExpr>)>) {
        if let Some((s, v)) = r {
            self.kw("RETURNING", s);
            for (i, e) in v.iter().enumerate() {
                self.sep(i);
                self.select_expr(e)
            }
        }
    }
    fn unit(&mut self, u: &(TimeUnit, Span)) {
        let w = match u.0 {
            TimeUnit::Microsecond => "MICROSECOND",
            TimeUnit::Second => "SECOND",
            TimeUnit::Minute => "MINUTE",
            TimeUnit::Hour => "HOUR",
            TimeUnit::Day => "DAY",
            TimeUnit::Week => "WEEK",
            TimeUnit::Month => "MONTH",
            TimeUnit::Quarter => "QUARTER",
            TimeUnit::Year => "YEAR",
            TimeUnit::SecondMicrosecond => "SECOND_MICROSECOND",
            TimeUnit::MinuteMicrosecond => "MINUTE_MICROSECOND",
            TimeUnit::MinuteSecond => "MINUTE_SECOND",
            TimeUnit::HourMicrosecond => "HOUR_MICROSECOND",
            TimeUnit::HourSecond => "HOUR_SECOND",
            TimeUnit::HourMinute => "HOUR_MINUTE",
            TimeUnit::DayMicrosecond => "DAY_MICROSECOND",
            TimeUnit::DaySecond => "DAY_SECOND",
            TimeUnit::DayMinute => "DAY_MINUTE",
            TimeUnit::DayHour => "DAY_HOUR",
            TimeUnit::YearMonth => "YEAR_MONTH",
        };
        self.kw(w, &u.1)
    }
    fn function(&mut self, f: &Function, s: &Span) {
        match f {
            Function::Other(v) => self.name(v, s),
            Function::Now => self.kw("NOW|LOCALTIME|LOCALTIMESTAMP", s),
            Function::CurrentTimestamp => self.kw("CURRENT_TIMESTAMP", s),
            Function::UtcTimeStamp => self.kw("UTC_TIMESTAMP", s),
            Function::UtcDate => self.kw("UTC_DATE", s),
            Function::UtcTime => self.kw("UTC_TIME", s),
            Function::CurDate => self.kw("CURRENT_DATE|CURDATE", s),
            Function::CurTime => self.kw("CURRENT_TIME|CURTIME", s),
            Function::Left => self.kw("LEFT", s),
            Function::Right => self.kw("RIGHT", s),
            Function::If => self.kw("IF", s),
            Function::Replace => self.kw("REPLACE", s),
            Function::Value => self.kw("VALUE|VALUES", s),
            Function::Abs => self.kw("ABS", s),
            Function::Acos => self.kw("ACOS", s),
            Function::AddDate => self.kw("ADDDATE|DATE_ADD", s),
            Function::AddMonths => self.kw("ADD_MONTHS", s),
            Function::AddTime => self.kw("ADDTIME", s),
            Function::Ascii => self.kw("ASCII", s),
            Function::Asin => self.kw("ASIN", s),
            Function::Atan => self.kw("ATAN", s),
            Function::Atan2 => self.kw("ATAN2", s),
            Function::Bin => self.kw("BIN", s),
            Function::BitLength => self.kw("BIT_LENGTH", s),
            Function::Ceil => self.kw("CEIL|CEILING", s),
            Function::CharacterLength => self.kw("CHAR_LENGTH|CHARACTER_LENGTH", s),
            Function::Chr => self.kw("CHR", s),
            Function::Concat => self.kw("CONCAT", s),
            Function::ConcatWs => self.kw("CONCAT_WS", s),
            Function::Conv => self.kw("CONV", s),
            Function::ConvertTz => self.kw("CONVERT_TZ", s),
            Function::Cos => self.kw("COS", s),
            Function::Cot => self.kw("COT", s),
            Function::Crc32 => self.kw("CRC32", s),
            Function::Crc32c => self.kw("CRC32C", s),
            Function::Date => self.kw("DATE", s),
            Function::DateDiff => self.kw("DATEDIFF", s),
            Function::DateFormat => self.kw("DATE_FORMAT", s),
            Function::DateSub => self.kw("DATE_SUB|SUBDATE", s),
            Function::Datetime => self.kw("DATETIME", s),
            Function::DayName => self.kw("DAYNAME", s),
            Function::DayOfMonth => self.kw("DAY|DAYOFMONTH", s),
            Function::DayOfWeek => self.kw("DAYOFWEEK", s),
            Function::DayOfYear => self.kw("DAYOFYEAR", s),
            Function::Degrees => self.kw("DEGREES", s),
            Function::Elt => self.kw("ELT", s),
            Function::Exists => self.kw("EXISTS", s),
            Function::Exp => self.kw("EXP", s),
            Function::ExportSet => self.kw("EXPORT_SET", s),
            Function::ExtractValue => self.kw("EXTRACTVALUE", s),
            Function::Field => self.kw("FIELD", s),
            Function::FindInSet => self.kw("FIND_IN_SET", s),
            Function::Floor => self.kw("FLOOR", s),
            Function::Format => self.kw("FORMAT", s),
            Function::FromBase64 => self.kw("FROM_BASE64", s),
            Function::FromDays => self.kw("FROM_DAYS", s),
            Function::FromUnixTime => self.kw("FROM_UNIXTIME", s),
            Function::Greatest => self.kw("GREATEST", s),
            Function::Hex => self.kw("HEX", s),
            Function::Hour => self.kw("HOUR", s),
            Function::IfNull => self.kw("IFNULL|NVL", s),
            Function::Insert => self.kw("INSERT", s),
            Function::InStr => self.kw("INSTR", s),
            Function::JsonArray => self.kw("JSON_ARRAY", s),
            Function::JsonArrayAgg => self.kw("JSON_ARRAYAGG", s),
            Function::JsonArrayAppend => self.kw("JSON_ARRAY_APPEND", s),
            Function::JsonArrayInsert => self.kw("JSON_ARRAY_INSERT", s),
            Function::JsonArrayIntersect => self.kw("JSON_ARRAY_INTERSECT", s),
            Function::JsonCompact => self.kw("JSON_COMPACT", s),
            Function::JsonContains => self.kw("JSON_CONTAINS", s),
            Function::JsonContainsPath => self.kw("JSON_CONTAINS_PATH", s),
            Function::JsonDepth => self.kw("JSON_DEPTH", s),
            Function::JsonDetailed => self.kw("JSON_DETAILED", s),
            Function::JsonEquals => self.kw("JSON_EQUALS", s),
            Function::JsonExists => self.kw("JSON_EXISTS", s),
            Function::JsonExtract => self.kw("JSON_EXTRACT", s),
            Function::JsonInsert => self.kw("JSON_INSERT", s),
            Function::JsonKeys => self.kw("JSON_KEYS", s),
            Function::JsonLength => self.kw("JSON_LENGTH", s),
            Function::JsonLoose => self.kw("JSON_LOOSE", s),
            Function::JsonMerge => self.kw("JSON_MERGE", s),
            Function::JsonMergePath => self.kw("JSON_MERGE_PATCH", s),
            Function::JsonMergePerserve => self.kw("JSON_MERGE_PRESERVE", s),
            Function::JsonNormalize => self.kw("JSON_NORMALIZE", s),
            Function::JsonObject => self.kw("JSON_OBJECT", s),
            Function::JsonObjectAgg => self.kw("JSON_OBJECTAGG", s),
            Function::JsonObjectFilterKeys => self.kw("JSON_OBJECT_FILTER_KEYS", s),
            Function::JsonObjectToArray => self.kw("JSON_OBJECT_TO_ARRAY", s),
            Function::JsonOverlaps => self.kw("JSON_OVERLAPS", s),
            Function::JsonPretty => self.kw("JSON_PRETTY", s),
            Function::JsonQuery => self.kw("JSON_QUERY", s),
            Function::JsonQuote => self.kw("JSON_QUOTE", s),
            Function::JsonRemove => self.kw("JSON_REMOVE", s),
            Function::JsonReplace => self.kw("JSON_REPLACE", s),
            Function::JsonSchemaValid => self.kw("JSON_SCHEMA_VALID", s),
            Function::JsonSearch => self.kw("JSON_SEARCH", s),
            Function::JsonSet => self.kw("JSON_SET", s),
            Function::JsonTable => self.kw("JSON_TABLE", s),
            Function::JsonType => self.kw("JSON_TYPE", s),
            Function::JsonUnquote => self.kw("JSON_UNQUOTE", s),
            Function::JsonValid => self.kw("JSON_VALID", s),
            Function::JsonValue => self.kw("JSON_VALUE", s),
            Function::Lag => self.kw("LAG", s),
            Function::LastDay => self.kw("LAST_DAY", s),
            Function::LCase => self.kw("LCASE", s),
            Function::Lead => self.kw("LEAD", s),
            Function::Least => self.kw("LEAST", s),
            Function::Length => self.kw("LENGTH", s),
            Function::LengthB => self.kw("LENGTHB", s),
            Function::Ln => self.kw("LN", s),
            Function::LoadFile => self.kw("LOAD_FILE", s),
            Function::Locate => self.kw("LOCATE", s),
            Function::Log => self.kw("LOG", s),
            Function::Log10 => self.kw("LOG10", s),
            Function::Log2 => self.kw("LOG2", s),
            Function::Lower => self.kw("LOWER", s),
            Function::LPad => self.kw("LPAD", s),
            Function::LTrim => self.kw("LTRIM", s),
            Function::MakeDate => self.kw("MAKEDATE", s),
            Function::MakeSet => self.kw("MAKE_SET", s),
            Function::MakeTime => self.kw("MAKETIME", s),
            Function::Max => self.kw("MAX", s),
            Function::MicroSecond => self.kw("MICROSECOND", s),
            Function::Mid => self.kw("MID", s),
            Function::Min => self.kw("MIN", s),
            Function::Minute => self.kw("MINUTE", s),
            Function::Month => self.kw("MONTH", s),
            Function::MonthName => self.kw("MONTHNAME", s),
            Function::NaturalSortkey => self.kw("NATURAL_SORT_KEY", s),
            Function::NullIf => self.kw("NULLIF", s),
            Function::NVL2 => self.kw("NVL2", s),
            Function::Oct => self.kw("OCT", s),
            Function::OctetLength => self.kw("OCTET_LENGTH", s),
            Function::Ord => self.kw("ORD", s),
            Function::PeriodAdd => self.kw("PERIOD_ADD", s),
            Function::PeriodDiff => self.kw("PERIOD_DIFF", s),
            Function::Pi => self.kw("PI", s),
            Function::Position => self.kw("POSITION", s),
            Function::Pow => self.kw("POW|POWER", s),
            Function::Quarter => self.kw("QUARTER", s),
            Function::Quote => self.kw("QUOTE", s),
            Function::Radians => self.kw("RADIANS", s),
            Function::Rand => self.kw("RAND", s),
            Function::Repeat => self.kw("REPEAT", s),
            Function::Reverse => self.kw("REVERSE", s),
            Function::Round => self.kw("ROUND", s),
            Function::RPad => self.kw("RPAD", s),
            Function::RTrim => self.kw("RTRIM", s),
            Function::Second => self.kw("SECOND", s),
            Function::SecToTime => self.kw("SEC_TO_TIME", s),
            Function::SFormat => self.kw("SFORMAT", s),
            Function::Sign => self.kw("SIGN", s),
            Function::Sin => self.kw("SIN", s),
            Function::SoundEx => self.kw("SOUNDEX", s),
            Function::Space => self.kw("SPACE", s),
            Function::Sqrt => self.kw("SQRT", s),
            Function::StartsWith => self.kw("STARTS_WITH", s),
            Function::StrCmp => self.kw("STRCMP", s),
            Function::Strftime => self.kw("STRFTIME", s),
            Function::StrToDate => self.kw("STR_TO_DATE", s),
            Function::SubStr => self.kw("SUBSTR|SUBSTRING", s),
            Function::SubStringIndex => self.kw("SUBSTRING_INDEX", s),
            Function::SubTime => self.kw("SUBTIME", s),
            Function::Sum => self.kw("SUM", s),
            Function::SysDate => self.kw("SYSDATE", s),
            Function::Tan => self.kw("TAN", s),
            Function::Time => self.kw("TIME", s),
            Function::TimeDiff => self.kw("TIMEDIFF", s),
            Function::TimeFormat => self.kw("TIME_FORMAT", s),
            Function::Timestamp => self.kw("TIMESTAMP", s),
            Function::TimeToSec => self.kw("TIME_TO_SEC", s),
            Function::ToBase64 => self.kw("TO_BASE64", s),
            Function::ToChar => self.kw("TO_CHAR", s),
            Function::ToDays => self.kw("TO_DAYS", s),
            Function::ToSeconds => self.kw("TO_SECONDS", s),
            Function::Truncate => self.kw("TRUNCATE", s),
            Function::UCase => self.kw("UCASE", s),
            Function::UncompressedLength => self.kw("UNCOMPRESSED_LENGTH", s),
            Function::UnHex => self.kw("UNHEX", s),
            Function::UnixTimestamp => self.kw("UNIX_TIMESTAMP", s),
            Function::UpdateXml => self.kw("UPDATEXML", s),
            Function::Upper => self.kw("UPPER", s),
            Function::Week => self.kw("WEEK", s),
            Function::Weekday => self.kw("WEEKDAY", s),
            Function::WeekOfYear => self.kw("WEEKOFYEAR", s),
            Function::Year => self.kw("YEAR", s),
            Function::YearWeek => self.kw("YEARWEEK", s),
            _ => self.any(s),
        }
    }
    pub fn expr(&mut self, e: &Expression) {
        match e {
            Expression::Binary { op, op_span, lhs, rhs } => {
                // MariaDB's table of operator precedence
                let prec = match op {
                    BinaryOperator::Or => 1,
                    BinaryOperator::Xor => 2,
                    BinaryOperator::And => 3,
                    BinaryOperator::Eq
                    | BinaryOperator::NullSafeEq
                    | BinaryOperator::GtEq
                    | BinaryOperator::Gt
                    | BinaryOperator::LtEq
                    | BinaryOperator::Lt
                    | BinaryOperator::Neq
                    | BinaryOperator::Like
                    | BinaryOperator::NotLike => 6,
                    BinaryOperator::BitOr => 7,
                    BinaryOperator::BitAnd => 8,
                    BinaryOperator::ShiftLeft | BinaryOperator::ShiftRight => 9,
                    BinaryOperator::Add | BinaryOperator::Subtract => 10,
                    BinaryOperator::Mult | BinaryOperator::Divide | BinaryOperator::Div | BinaryOperator::Mod => 11,
                    BinaryOperator::BitXor => 12,
                };
                self.enter_op(BINARY as u16, e.span(), prec);
                self.expr(lhs);
                let w = match op {
                    BinaryOperator::Or => "OR|| |",
                    BinaryOperator::Xor => "XOR",
                    BinaryOperator::And => "AND|&&",
                    BinaryOperator::Eq => "=",
                    BinaryOperator::NullSafeEq => "<=>",
                    BinaryOperator::GtEq => ">=",
                    BinaryOperator::Gt => ">",
                    BinaryOperator::LtEq => "<=",
                    BinaryOperator::Lt => "<",
                    BinaryOperator::Neq => "!=|<>",
                    BinaryOperator::ShiftLeft => "<<",
                    BinaryOperator::ShiftRight => ">>",
                    BinaryOperator::BitAnd => "&",
                    BinaryOperator::BitOr => "\x7c",
                    BinaryOperator::BitXor => "^",
                    BinaryOperator::Add => "+",
                    BinaryOperator::Subtract => "-",
                    BinaryOperator::Divide => "/",
                    BinaryOperator::Div => "DIV",
                    BinaryOperator::Mod => "MOD|%",
                    BinaryOperator::Mult => "*",
                    BinaryOperator::Like => "LIKE",
                    BinaryOperator::NotLike => "NOT LIKE",
                };
                let w = match op {
                    BinaryOperator::Or => "\u{2}OR",
                    BinaryOperator::BitOr => "\u{2}BAR",
                    _ => w,
                };
                self.kw(w, op_span);
                self.expr(rhs);
                self.end(BINARY)
            }
            Expression::Unary { op, op_span, operand } => {
                let prec = match op {
                    UnaryOperator::Not => 4,
                    UnaryOperator::Minus => 13,
                    UnaryOperator::LogicalNot => 14,
                    UnaryOperator::Binary | UnaryOperator::Collate => 15,
                };
                self.enter_op(UNARY as u16, e.span(), prec);
                let w = match op {
                    UnaryOperator::Binary => "BINARY",
                    UnaryOperator::Collate => "COLLATE",
                    UnaryOperator::LogicalNot => "!",
                    UnaryOperator::Minus => "-",
                    UnaryOperator::Not => "NOT",
                };
                self.kw(w, op_span);
                self.expr(operand);
                self.end(UNARY)
            }
            Expression::Subquery(s) => {
                self.nd(SUBQUERY, e);
                self.statement(s);
                self.end(SUBQUERY)
            }
            Expression::Null(s) => self.kw("NULL", s),
            Expression::Bool(true, s) => self.kw("TRUE", s),
            Expression::Bool(false, s) => self.kw("FALSE", s),
            Expression::String(s) => self.str(s),
            Expression::Integer((v, s)) => self.int(*v, s),
            Expression::Float((v, s)) => self.float(*v, s),
            Expression::ListHack((v, s)) => self.list(*v, s),
            Expression::Arg((v, s)) => self.arg(*v, s),
            Expression::Function(f, args, s) => {
                self.nd(FUNCTION, e);
                self.function(f, s);
                self.group(1);
                for (i, x) in args.iter().enumerate() {
                    self.sep(i);
                    self.expr(x)
                }
                self.ungroup();
                self.end(FUNCTION)
            }
            Expression::WindowFunction { function, args, function_span, over_span, window_spec } => {
                self.nd(WINDOW, e);
                self.function(function, function_span);
                self.group(1);
                for (i, x) in args.iter().enumerate() {
                    self.sep(i);
                    self.expr(x)
                }
                self.ungroup();
                self.kw("OVER", over_span);
                self.nd(WINDOW_SPEC, window_spec);
                self.group(4);
                self.order(&window_spec.order_by);
                self.ungroup();
                self.end(WINDOW_SPEC);
                self.end(WINDOW)
            }
            Expression::Identifier(parts) => {
                self.nd(IDENTIFIER, e);
                for (i, p) in parts.iter().enumerate() {
                    if i > 0 {
                        self.here(".")
                    }
                    self.nd(IDENT_PART, p);
                    match p {
                        IdentifierPart::Name(n) => self.id(n),
                        IdentifierPart::Star(s) => self.kw("*", s),
                    }
                    self.end(IDENT_PART)
                }
                self.end(IDENTIFIER)
            }
            Expression::Interval { interval_span, time_interval, time_unit } => {
                self.nd(INTERVAL, e);
                self.kw("INTERVAL", interval_span);
                self.ival(&time_interval.0, &time_interval.1);
                self.unit(time_unit);
                self.end(INTERVAL)
            }
            Expression::Exists(s) => {
                self.nd(EXISTS, e);
                self.here("EXISTS");
                self.group(3);
                self.statement(s);
                self.ungroup();
                self.end(EXISTS)
            }
            Expression::Extract { extract_span, time_unit, from_span, date } => {
                self.nd(EXTRACT, e);
                self.kw("EXTRACT", extract_span);
                self.unit(time_unit);
                self.kw("FROM", from_span);
                self.expr(date);
                self.end(EXTRACT)
            }
            Expression::In { lhs, rhs, in_span, not_in } => {
                self.enter_op(IN as u16, e.span(), 6);
                self.expr(lhs);
                self.kw(if *not_in { "NOT IN" } else { "IN" }, in_span);
                self.group(2);
                for (i, x) in rhs.iter().enumerate() {
                    self.sep(i);
                    self.expr(x)
                }
                self.ungroup();
                self.end(IN)
            }
            Expression::Is(l, is, s) => {
                self.enter_op(IS as u16, e.span(), 6);
                self.expr(l);
                let w = match is {
                    Is::Null => "IS NULL",
                    Is::NotNull => "IS NOT NULL",
                    Is::True => "IS TRUE",
                    Is::NotTrue => "IS NOT TRUE",
                    Is::False => "IS FALSE",
                    Is::NotFalse => "IS NOT FALSE",
                    Is::Unknown => "IS UNKNOWN",
                    Is::NotUnknown => "IS NOT UNKNOWN",
                };
                self.kw(w, s);
                self.end(IS)
            }
            Expression::Invalid(s) => {
                self.nd(INVALID_EXPR, e);
                self.errn(s);
                self.end(INVALID_EXPR)
            }
            Expression::Case { case_span, value, whens, else_, end_span } => {
                self.nd(CASE_EXPR, e);
                self.kw("CASE", case_span);
                if let Some(v) = value {
                    self.expr(v)
                }
                for w in whens {
                    self.nd(WHEN_EXPR, w);
                    self.kw("WHEN", &w.when_span);
                    self.expr(&w.when);
                    self.kw("THEN", &w.then_span);
                    self.expr(&w.then);
                    self.end(WHEN_EXPR)
                }
                if let Some((s, x)) = else_ {
                    self.kw("ELSE", s);
                    self.expr(x)
                }
                self.kw("END", end_span);
                self.end(CASE_EXPR)
            }
            Expression::Cast { cast_span, expr, as_span, type_ } => {
                self.nd(CAST, e);
                self.kw("CAST", cast_span);
                self.expr(expr);
                self.kw("AS", as_span);
                self.data_type(type_);
                self.end(CAST)
            }
            Expression::Count { count_span, distinct_span, expr } => {
                self.nd(COUNT, e);
                self.kw("COUNT", count_span);
                self.kw_opt("DISTINCT", distinct_span);
                self.expr(expr);
                self.end(COUNT)
            }
            Expression::GroupConcat { group_concat_span, distinct_span, expr } => {
                self.nd(GROUP_CONCAT, e);
                self.kw("GROUP_CONCAT", group_concat_span);
                self.kw_opt("DISTINCT", distinct_span);
                self.expr(expr);
                self.end(GROUP_CONCAT)
            }
            Expression::Variable { global, session, dot, variable, variable_span } => {
                self.nd(VARIABLE, e);
                self.kw_opt("@@GLOBAL", global);
                self.kw_opt("@@SESSION", session);
                self.kw_opt(".", dot);
                match variable {
                    Variable::TimeZone => self.kw("TIME_ZONE", variable_span),
                    Variable::Other(v) => self.name(v, variable_span),
                }
                self.end(VARIABLE)
            }
            Expression::TimestampAdd { timestamp_add_span, unit, interval, datetime } => {
                self.nd(TIMESTAMPADD, e);
                self.kw("TIMESTAMPADD", timestamp_add_span);
                self.unit(unit);
                self.here(",");
                self.expr(interval);
                self.here(",");
                self.expr(datetime);
                self.end(TIMESTAMPADD)
            }
            Expression::TimestampDiff { timestamp_diff_span, unit, e1, e2 } => {
                self.nd(TIMESTAMPDIFF, e);
                self.kw("TIMESTAMPDIFF", timestamp_diff_span);
                self.unit(unit);
                self.here(",");
                self.expr(e1);
                self.here(",");
                self.expr(e2);
                self.end(TIMESTAMPDIFF)
            }
        }
    }
    fn select_expr(&mut self, s: &SelectExpr) {
        self.nd(SELECT_EXPR, s);
        self.expr(&s.expr);
        if let Some(a) = &s.as_ {
            self.here("AS");
            self.id(a)
        }
        self.end(SELECT_EXPR)
    }
    fn table_ref(&mut self, t: &TableReference) {
        match t {
            TableReference::Table { identifier, as_span, as_, index_hints } => {
                self.nd(TABLE_REF, t);
                self.qname(identifier);
                self.kw_opt("AS", as_span);
                if let Some(a) = as_ {
                    self.id(a)
                }
                for h in index_hints {
                    self.nd(INDEX_HINT, h);
                    match &h.use_ {
                        IndexHintUse::Use(s) => self.kw("USE", s),
                        IndexHintUse::Ignore(s) => self.kw("IGNORE", s),
                        IndexHintUse::Force(s) => self.kw("FORCE", s),
                    }
                    match &h.type_ {
                        IndexHintType::Index(s) => self.kw("INDEX", s),
                        IndexHintType::Key(s) => self.kw("KEY", s),
                    }
                    if let Some((s, f)) = &h.for_ {
                        self.kw("FOR", s);
                        match f {
                            IndexHintFor::Join(s) => self.kw("JOIN", s),
                            IndexHintFor::OrderBy(s) => self.kw("ORDER BY", s),
                            IndexHintFor::GroupBy(s) => self.kw("GROUP BY", s),
                        }
                    }
                    self.kw("(", &h.lparen);
                    self.ids(&h.index_list);
                    self.kw(")", &h.rparen);
                    self.end(INDEX_HINT)
                }
                self.end(TABLE_REF)
            }
            TableReference::Query { query, as_span, as_ } => {
                self.nd(QUERY_REF, t);
                self.statement(query);
                self.kw_opt("AS", as_span);
                if let Some(a) = as_ {
                    self.id(a)
                }
                self.end(QUERY_REF)
            }
            TableReference::Join { join, left, right, specification } => {
                self.nd(JOIN, t);
                self.table_ref(left);
                match join {
                    JoinType::Inner(s) => self.kw("INNER JOIN", s),
                    JoinType::Cross(s) => self.kw("CROSS JOIN", s),
                    JoinType::Normal(s) => self.kw("JOIN", s),
                    JoinType::Straight(s) => self.kw("STRAIGHT_JOIN", s),
                    JoinType::Left(s) => self.kw("LEFT OUTER JOIN|LEFT JOIN", s),
                    JoinType::Right(s) => self.kw("RIGHT OUTER JOIN|RIGHT JOIN", s),
                    JoinType::Natural(s) => self.kw("NATURAL JOIN", s),
                    JoinType::NaturalInner(s) => self.kw("NATURAL INNER JOIN", s),
                    JoinType::NaturalLeft(s) => self.kw("NATURAL LEFT OUTER JOIN|NATURAL LEFT JOIN", s),
                    JoinType::NaturalRight(s) => self.kw("NATURAL RIGHT OUTER JOIN|NATURAL RIGHT JOIN", s),
                }
                // joins associate to the left
                let nested = matches!(&**right, TableReference::Join { .. });
                if nested {
                    self.group(10)
                }
                self.table_ref(right);
                if nested {
                    self.ungroup()
                }
                if let Some(sp) = specification {
                    self.nd(JOIN_SPEC, sp);
                    match sp {
                        JoinSpecification::On(e, s) => {
                            self.kw("ON", s);
                            self.expr(e)
                        }
                        JoinSpecification::Using(v, s) => {
                            self.kw("USING", s);
                            self.ids(v)
                        }
                    }
                    self.end(JOIN_SPEC)
                }
                self.end(JOIN)
            }
        }
    }
    fn table_refs(&mut self, v: &[TableReference]) {
        for (i, t) in v.iter().enumerate() {
            self.sep(i);
            self.table_ref(t)
        }
    }
    fn select(&mut self, s: &Select) {
        self.nd(SELECT, s);
        self.kw("SELECT", &s.select_span);
        for f in &s.flags {
            match f {
                SelectFlag::All(s) => self.kw("ALL", s),
                SelectFlag::Distinct(s) => self.kw("DISTINCT", s),
                SelectFlag::DistinctRow(s) => self.kw("DISTINCTROW", s),
                SelectFlag::HighPriority(s) => self.kw("HIGH_PRIORITY", s),
                SelectFlag::StraightJoin(s) => self.kw("STRAIGHT_JOIN", s),
                SelectFlag::SqlSmallResult(s) => self.kw("SQL_SMALL_RESULT", s),
                SelectFlag::SqlBigResult(s) => self.kw("SQL_BIG_RESULT", s),
                SelectFlag::SqlBufferResult(s) => self.kw("SQL_BUFFER_RESULT", s),
                SelectFlag::SqlNoCache(s) => self.kw("SQL_NO_CACHE", s),
                SelectFlag::SqlCalcFoundRows(s) => self.kw("SQL_CALC_FOUND_ROWS", s),
            }
        }
        for (i, e) in s.select_exprs.iter().enumerate() {
            self.sep(i);
            self.select_expr(e)
        }
        self.kw_opt("FROM", &s.from_span);
        if let Some(t) = &s.table_references {
            self.table_refs(t)
        }
        self.where_(&s.where_, "WHERE");
        if let Some((s, v)) = &s.group_by {
            self.kw("GROUP BY", s);
            for (i, e) in v.iter().enumerate() {
                self.sep(i);
                self.expr(e)
            }
        }
        self.where_(&s.having, "HAVING");
        self.kw_opt("WINDOW", &s.window_span);
        if let Some(o) = &s.order_by {
            self.order(o)
        }
        if let Some(l) = &s.limit {
            self.limit(l)
        }
        if let Some(l) = &s.locking {
            self.nd(LOCKING, l);
            self.kw("FOR", &l.for_span);
            match &l.strength {
                LockStrength::Update(s) => self.kw("UPDATE", s),
                LockStrength::Share(s) => self.kw("SHARE", s),
                LockStrength::NoKeyUpdate(s) => self.kw("NO KEY UPDATE", s),
                LockStrength::KeyShare(s) => self.kw("KEY SHARE", s),
            }
            if let Some((s, v)) = &l.of {
                self.kw("OF", s);
                self.ids(v)
            }
            match &l.wait {
                LockWait::NoWait(s) => self.kw("NOWAIT", s),
                LockWait::SkipLocket(s) => self.kw("SKIP LOCKED", s),
                LockWait::Default => (),
            }
            self.end(LOCKING)
        }
        self.end(SELECT)
    }
    fn width(&mut self, w: &Option<(usize, Span)>) {
        if let Some((v, s)) = w {
            self.int(*v as u64, s)
        }
    }
    fn num2o(&mut self, w: &Option<(usize, usize, Span)>) {
        if let Some((x, y, s)) = w {
            self.num2(*x, *y, s)
        }
    }
    fn strs(&mut self, v: &[sql_parse::SString]) {
        self.group(7);
        for (i, s) in v.iter().enumerate() {
            self.sep(i);
            self.str(s)
        }
        self.ungroup()
    }
    fn data_type(&mut self, d: &DataType) {
        self.nd(DATA_TYPE, d);
        let i = &d.identifier;
        let pg = self.dialect == 1;
        macro_rules! t {
            ($w:expr) => {
                self.kw($w, i)
            };
            ($w:expr, $n:expr) => {{
                self.kw($w, i);
                self.width($n)
            }};
        }
        match &d.type_ {
            Type::Boolean => t!("BOOLEAN"),
            Type::TinyInt(w) => t!("TINYINT", w),
            Type::SmallInt(w) => t!("SMALLINT", w),
            Type::Integer(w) => t!("INTEGER", w),
            Type::Int(w) => t!("INT", w),
            Type::BigInt(w) => t!("BIGINT", w),
            Type::Char(w) => t!("CHAR", w),
            Type::VarChar(w) => t!("VARCHAR", w),
            Type::TinyText(w) => t!("TINYTEXT", w),
            Type::MediumText(w) => t!("MEDIUMTEXT", w),
            Type::Text(w) => t!("TEXT", w),
            Type::LongText(w) => t!("LONGTEXT", w),
            Type::Enum(v) => {
                t!("ENUM");
                self.strs(v)
            }
            Type::Set(v) => {
                t!("SET");
                self.strs(v)
            }
            Type::Float8 => t!("FLOAT8"),
            Type::Float(w) => {
                t!(if self.dialect == 2 { "FLOAT" } else { "FLOAT|REAL" });
                self.num2o(w)
            }
            Type::Double(w) => {
                t!(match self.dialect {
                    0 => "DOUBLE",
                    1 => "DOUBLE PRECISION",
                    _ => "DOUBLE|REAL",
                });
                self.num2o(w)
            }
            Type::Numeric(a, b, s) => {
                t!("NUMERIC");
                self.num2(*a, *b, s)
            }
            Type::DateTime(w) => t!("DATETIME", w),
            Type::Timestamp(v) => {
                t!("TIMESTAMP", &v.width);
                self.kw_opt("WITH TIME ZONE", &v.with_time_zone)
            }
            Type::Timestamptz => t!("TIMESTAMPTZ"),
            Type::Time(w) => t!("TIME", w),
            Type::TinyBlob(w) => t!("TINYBLOB", w),
            Type::MediumBlob(w) => t!("MEDIUMBLOB", w),
            Type::Date => t!("DATE"),
            Type::Blob(w) => t!("BLOB", w),
            Type::LongBlob(w) => t!("LONGBLOB", w),
            Type::VarBinary((v, s)) => {
                t!("VARBINARY");
                self.int(*v as u64, s)
            }
            Type::Binary(w) => t!("BINARY", w),
            Type::Named(s) => {
                if !pg || s != i {
                    // a named type is its name
                    self.kw("\u{2}NOT_A_TYPE", s)
                }
                self.any(i)
            }
            Type::Json => t!("JSON"),
            Type::Bit(v, s) => {
                t!("BIT");
                self.int(*v as u64, s)
            }
            Type::Bytea => t!("BYTEA"),
            Type::Inet4 => t!("INET4"),
            Type::Inet6 => t!("INET6"),
        }
        for p in &d.properties {
            self.nd(PROPERTY, p);
            match p {
                DataTypeProperty::Signed(s) => self.kw("SIGNED", s),
                DataTypeProperty::Unsigned(s) => self.kw("UNSIGNED", s),
                DataTypeProperty::Zerofill(s) => self.kw("ZEROFILL", s),
                DataTypeProperty::Null(s) => self.kw("NULL", s),
                DataTypeProperty::NotNull(s) => self.kw("NOT NULL", s),
                DataTypeProperty::Default(e) => {
                    self.here("DEFAULT");
                    self.expr(e)
                }
                DataTypeProperty::Comment(c) => {
                    self.here("COMMENT");
                    self.str(c)
                }
                DataTypeProperty::Charset(c) => {
                    self.here("CHARACTER SET|CHARSET");
                    self.id(c)
                }
                DataTypeProperty::Collate(c) => {
                    self.here("COLLATE");
                    self.id(c)
                }
                DataTypeProperty::Virtual(s) => self.kw("VIRTUAL", s),
                DataTypeProperty::Persistent(s) => self.kw("PERSISTENT", s),
                DataTypeProperty::Stored(s) => self.kw("STORED", s),
                DataTypeProperty::Unique(s) => self.kw("UNIQUE", s),
                DataTypeProperty::UniqueKey(s) => self.kw("UNIQUE KEY", s),
                DataTypeProperty::GeneratedAlways(s) => {
                    self.kw(if pg { "GENERATED ALWAYS AS IDENTITY" } else { "GENERATED ALWAYS" }, s)
                }
                DataTypeProperty::AutoIncrement(s) => self.kw("AUTO_INCREMENT", s),
                DataTypeProperty::PrimaryKey(s) => self.kw("PRIMARY KEY", s),
                DataTypeProperty::As((s, e)) => {
                    self.kw("AS", s);
                    self.expr(e)
                }
                DataTypeProperty::Check((s, e)) => {
                    self.kw("CHECK", s);
                    self.expr(e)
                }
            }
            self.end(PROPERTY)
        }
        self.end(DATA_TYPE)
    }
    fn pairs(&mut self, v: &[InsertReplaceSetPair]) {
        for (i, p) in v.iter().enumerate() {
            self.sep(i);
            self.nd(INSERT_PAIR, p);
            self.id(&p.column);
            self.kw("=", &p.equal_span);
            self.expr(&p.value);
            self.end(INSERT_PAIR)
        }
    }
    fn insert(&mut self, r: &InsertReplace) {
        self.nd(INSERT, r);
        match &r.type_ {
            InsertReplaceType::Insert(s) => self.kw("INSERT", s),
            InsertReplaceType::Replace(s) => self.kw("REPLACE", s),
        }
        for f in &r.flags {
            match f {
                InsertReplaceFlag::LowPriority(s) => self.kw("LOW_PRIORITY", s),
                InsertReplaceFlag::HighPriority(s) => self.kw("HIGH_PRIORITY", s),
                InsertReplaceFlag::Delayed(s) => self.kw("DELAYED", s),
                InsertReplaceFlag::Ignore(s) => self.kw("IGNORE", s),
            }
        }
        self.kw_opt("INTO", &r.into_span);
        self.qname(&r.table);
        self.group(5);
        self.ids(&r.columns);
        self.ungroup();
        if let Some((s, rows)) = &r.values {
            self.kw("VALUES|VALUE", s);
            for (i, row) in rows.iter().enumerate() {
                self.sep(i);
                self.group(6);
                for (i, e) in row.iter().enumerate() {
                    self.sep(i);
                    self.expr(e)
                }
                self.ungroup()
            }
        }
        if let Some(s) = &r.select {
            self.select(s)
        }
        if let Some(s) = &r.set {
            self.nd(INSERT_SET, s);
            self.kw("SET", &s.set_span);
            self.pairs(&s.pairs);
            self.end(INSERT_SET)
        }
        if let Some(o) = &r.on_duplicate_key_update {
            self.nd(ON_DUPLICATE, o);
            self.kw("ON DUPLICATE KEY UPDATE", &o.on_duplicate_key_update_span);
            self.pairs(&o.pairs);
            self.end(ON_DUPLICATE)
        }
        if let Some(o) = &r.on_conflict {
            self.nd(ON_CONFLICT, o);
            self.kw("ON CONFLICT", &o.on_conflict_span);
            self.enter_opt(CONFLICT_TARGET as u16, &o.target);
            match &o.target {
                OnConflictTarget::Columns { names } => {
                    self.group(5);
                    self.ids(names);
                    self.ungroup()
                }
                OnConflictTarget::OnConstraint { on_constraint_span, name } => {
                    self.kw("ON CONSTRAINT", on_constraint_span);
                    self.id(name)
                }
                OnConflictTarget::None => (),
            }
            self.end(CONFLICT_TARGET);
            self.nd(CONFLICT_ACTION, &o.action);
            match &o.action {
                OnConflictAction::DoNothing(s) => self.kw("DO NOTHING", s),
                OnConflictAction::DoUpdateSet { do_update_set_span, sets, where_ } => {
                    self.kw("DO UPDATE SET", do_update_set_span);
                    for (i, (n, e)) in sets.iter().enumerate() {
                        self.sep(i);
                        self.id(n);
                        self.here("=");
                        self.expr(e)
                    }
                    if let Some((s, e)) = where_ {
                        self.kw("WHERE", s);
                        self.expr(e)
                    }
                }
            }
            self.end(CONFLICT_ACTION);
            self.end(ON_CONFLICT)
        }
        self.returning(&r.returning);
        self.end(INSERT)
    }
    fn update(&mut self, u: &Update) {
        self.nd(UPDATE, u);
        self.kw("UPDATE", &u.update_span);
        for f in &u.flags {
            match f {
                UpdateFlag::LowPriority(s) => self.kw("LOW_PRIORITY", s),
                UpdateFlag::Ignore(s) => self.kw("IGNORE", s),
            }
        }
        self.table_refs(&u.tables);
        self.kw("SET", &u.set_span);
        for (i, (n, e)) in u.set.iter().enumerate() {
            self.sep(i);
            for (i, x) in n.iter().enumerate() {
                if i > 0 {
                    self.here(".")
                }
                self.id(x)
            }
            self.here("=");
            self.expr(e)
        }
        self.where_(&u.where_, "WHERE");
        self.returning(&u.returning);
        self.end(UPDATE)
    }
    fn delete(&mut self, d: &Delete) {
        self.nd(DELETE, d);
        self.kw("DELETE", &d.delete_span);
        for f in &d.flags {
            match f {
                DeleteFlag::LowPriority(s) => self.kw("LOW_PRIORITY", s),
                DeleteFlag::Quick(s) => self.kw("QUICK", s),
                DeleteFlag::Ignore(s) => self.kw("IGNORE", s),
            }
        }
        let from_first = d.tables.is_empty() || d.from_span.start < d.tables[0].span().start;
        if from_first {
            self.kw("FROM", &d.from_span);
            self.qnames(&d.tables);
            if !d.using.is_empty() {
                self.here("USING")
            }
        } else {
            self.qnames(&d.tables);
            self.kw("FROM", &d.from_span);
        }
        self.table_refs(&d.using);
        self.where_(&d.where_, "WHERE");
        self.returning(&d.returning);
        self.end(DELETE)
    }
    pub fn block(&mut self, v: &[Statement]) {
        self.semis();
        for s in v {
            self.statement(s);
            self.semis()
        }
    }
    /// A part of a union: what is itself a union, or is sorted or cut off by itself, stands in parentheses.
    fn operand(&mut self, s: &Statement) {
        let what = match s {
            Statement::Union(_) => 11,
            Statement::Select(q) if q.order_by.is_some() || q.limit.is_some() => 12,
            _ => 0,
        };
        if what != 0 {
            self.group(what)
        }
        self.statement(s);
        if what != 0 {
            self.ungroup()
        }
    }
    pub fn statement(&mut self, s: &Statement) {
        if let Statement::Stdin(..) = s {
            // data lines are no tokens and may be empty
            self.nd0(STATEMENT)
        } else {
            self.nd(STATEMENT, s)
        }
        match s {
            Statement::CreateIndex(v) => self.create_index(v),
            Statement::CreateTable(v) => self.create_table(v),
            Statement::CreateView(v) => self.create_view(v),
            Statement::CreateTrigger(v) => self.create_trigger(v),
            Statement::CreateFunction(v) => self.create_function(v),
            Statement::CreateTypeEnum(v) => self.create_type(v),
            Statement::Select(v) => self.select(v),
            Statement::Delete(v) => self.delete(v),
            Statement::InsertReplace(v) => self.insert(v),
            Statement::Update(v) => self.update(v),
            Statement::DropIndex(v) => {
                self.nd(DROP_INDEX, v);
                self.kw("DROP", &v.drop_span);
                self.kw("INDEX", &v.index_span);
                self.kw_opt("IF EXISTS", &v.if_exists);
                self.id(&v.index_name);
                if let Some((s, q)) = &v.on {
                    self.kw("ON", s);
                    self.qname(q)
                }
                self.end(DROP_INDEX)
            }
            Statement::DropTable(v) => {
                self.nd(DROP_TABLE, v);
                self.kw("DROP", &v.drop_span);
                self.kw_opt("TEMPORARY", &v.temporary);
                self.kw("TABLE", &v.table_span);
                self.kw_opt("IF EXISTS", &v.if_exists);
                self.qnames(&v.tables);
                self.kw_opt("CASCADE", &v.cascade);
                self.end(DROP_TABLE)
            }
            Statement::DropView(v) => {
                self.nd(DROP_VIEW, v);
                self.kw("DROP", &v.drop_span);
                self.kw_opt("TEMPORARY", &v.temporary);
                self.kw("VIEW", &v.view_span);
                self.kw_opt("IF EXISTS", &v.if_exists);
                self.qnames(&v.views);
                self.end(DROP_VIEW)
            }
            Statement::DropFunction(v) => {
                self.nd(DROP_FUNCTION, v);
                self.kw("DROP", &v.drop_span);
                self.kw("FUNCTION", &v.function_span);
                self.kw_opt("IF EXISTS", &v.if_exists);
                self.qname(&v.function);
                self.end(DROP_FUNCTION)
            }
            Statement::DropProcedure(v) => {
                self.nd(DROP_PROCEDURE, v);
                self.kw("DROP", &v.drop_span);
                self.kw("PROCEDURE", &v.procedure_span);
                self.kw_opt("IF EXISTS", &v.if_exists);
                self.qname(&v.procedure);
                self.end(DROP_PROCEDURE)
            }
            Statement::DropEvent(v) => {
                self.nd(DROP_EVENT, v);
                self.kw("DROP", &v.drop_span);
                self.kw("EVENT", &v.event_span);
                self.kw_opt("IF EXISTS", &v.if_exists);
                self.qname(&v.event);
                self.end(DROP_EVENT)
            }
            Statement::DropDatabase(v) => {
                self.nd(DROP_DATABASE, v);
                self.kw("DROP", &v.drop_span);
                self.kw("DATABASE|SCHEMA", &v.database_span);
                self.kw_opt("IF EXISTS", &v.if_exists);
                self.id(&v.database);
                self.end(DROP_DATABASE)
            }
            Statement::DropServer(v) => {
                self.nd(DROP_SERVER, v);
                self.kw("DROP", &v.drop_span);
                self.kw("SERVER", &v.server_span);
                self.kw_opt("IF EXISTS", &v.if_exists);
                self.id(&v.server);
                self.end(DROP_SERVER)
            }
            Statement::DropTrigger(v) => {
                self.nd(DROP_TRIGGER, v);
                self.kw("DROP", &v.drop_span);
                self.kw("TRIGGER", &v.trigger_span);
                self.kw_opt("IF EXISTS", &v.if_exists);
                self.qname(&v.identifier);
                self.end(DROP_TRIGGER)
            }
            Statement::Set(v) => {
                self.nd(SET, v);
                self.kw("SET", &v.set_span);
                for (i, (n, e)) in v.values.iter().enumerate() {
                    self.sep(i);
                    self.id(n);
                    self.here("=");
                    self.expr(e)
                }
                self.end(SET)
            }
            Statement::Signal(v) => {
                self.nd(SIGNAL, v);
                self.kw("SIGNAL", &v.signal_span);
                self.kw("SQLSTATE", &v.sqlstate_span);
                self.kw_opt("VALUE", &v.value_span);
                self.expr(&v.sql_state);
                self.kw_opt("SET", &v.set_span);
                for (i, (n, eq, e)) in v.sets.iter().enumerate() {
                    self.sep(i);
                    use SignalConditionInformationName::*;
                    match n {
                        ClassOrigin(s) => self.kw("CLASS_ORIGIN", s),
                        SubclassOrigin(s) => self.kw("SUBCLASS_ORIGIN", s),
                        MessageText(s) => self.kw("MESSAGE_TEXT", s),
                        MysqlErrno(s) => self.kw("MYSQL_ERRNO", s),
                        ConstraintCatalog(s) => self.kw("CONSTRAINT_CATALOG", s),
                        ConstraintSchema(s) => self.kw("CONSTRAINT_SCHEMA", s),
                        ConstraintName(s) => self.kw("CONSTRAINT_NAME", s),
                        CatalogName(s) => self.kw("CATALOG_NAME", s),
                        SchemaName(s) => self.kw("SCHEMA_NAME", s),
                        TableName(s) => self.kw("TABLE_NAME", s),
                        ColumnName(s) => self.kw("COLUMN_NAME", s),
                        CursorName(s) => self.kw("CURSOR_NAME", s),
                    }
                    self.kw("=", eq);
                    self.expr(e)
                }
                self.end(SIGNAL)
            }
            Statement::AlterTable(v) => self.alter(v),
            Statement::Block(v, _) => {
                self.nd(BLOCK, s);
                self.here("BEGIN");
                self.block(v);
                self.here("END");
                self.end(BLOCK)
            }
            Statement::Do(v, _) => {
                self.nd(DO, s);
                self.here("DO $$ BEGIN");
                self.block(v);
                self.here("END $$");
                self.end(DO)
            }
            Statement::Begin(s) => self.kw("BEGIN", s),
            Statement::End(s) => self.kw("END", s),
            Statement::Commit(s) => self.kw("COMMIT", s),
            Statement::StartTransaction(s) => self.kw("START TRANSACTION", s),
            Statement::If(v) => {
                self.nd(IF, v);
                self.kw("IF", &v.if_span);
                for c in &v.conditions {
                    self.nd(IF_COND, c);
                    self.kw_opt("ELSEIF", &c.elseif_span);
                    self.expr(&c.search_condition);
                    self.kw("THEN", &c.then_span);
                    self.block(&c.then);
                    self.end(IF_COND)
                }
                if let Some((s, b)) = &v.else_ {
                    self.kw("ELSE", s);
                    self.block(b)
                }
                self.kw("END IF", &v.endif_span);
                self.end(IF)
            }
            Statement::Return(v) => {
                self.nd(RETURN, v);
                self.kw("RETURN", &v.return_span);
                self.expr(&v.expr);
                self.end(RETURN)
            }
            Statement::Invalid(s) => self.errn(s),
            Statement::Union(v) => {
                self.nd(UNION, v);
                self.operand(&v.left);
                for w in &v.with {
                    self.nd(UNION_WITH, w);
                    self.kw("UNION", &w.union_span);
                    match &w.union_type {
                        UnionType::All(s) => self.kw("ALL", s),
                        UnionType::Distinct(s) => self.kw("DISTINCT", s),
                        UnionType::Default => (),
                    }
                    self.operand(&w.union_statement);
                    self.end(UNION_WITH)
                }
                if let Some(o) = &v.order_by {
                    self.order(o)
                }
                if let Some(l) = &v.limit {
                    self.limit(l)
                }
                self.end(UNION)
            }
            Statement::Case(v) => {
                self.nd(CASE_STMT, v);
                self.kw("CASE", &v.case_span);
                if let Some(e) = &v.value {
                    self.expr(e)
                }
                for w in &v.whens {
                    self.nd(WHEN_STMT, w);
                    self.kw("WHEN", &w.when_span);
                    self.expr(&w.when);
                    self.kw("THEN", &w.then_span);
                    self.block(&w.then);
                    self.end(WHEN_STMT)
                }
                if let Some((s, b)) = &v.else_ {
                    self.kw("ELSE", s);
                    self.block(b)
                }
                self.kw("END CASE|END", &v.end_span);
                self.opt("CASE");
                self.end(CASE_STMT)
            }
            Statement::Copy(v) => {
                self.nd(COPY, v);
                self.kw("COPY", &v.copy_span);
                self.id(&v.table);
                self.group(5);
                self.ids(&v.columns);
                self.ungroup();
                self.kw("FROM", &v.from_span);
                self.kw("STDIN", &v.stdin_span);
                self.end(COPY)
            }
            Statement::Stdin(v, s) => self.raw(v, s),
            Statement::TruncateTable(v) => {
                self.nd(TRUNCATE, v);
                self.kw("TRUNCATE", &v.truncate_span);
                self.kw_opt("TABLE", &v.table_span);
                self.qname(&v.table_name);
                self.end(TRUNCATE)
            }
            Statement::RenameTable(v) => {
                self.nd(RENAME, v);
                self.kw("RENAME", &v.rename_span);
                self.kw_opt("TABLE|TABLES", &v.table_span);
                for (i, t) in v.table_to_tables.iter().enumerate() {
                    self.sep(i);
                    self.nd(RENAME_PAIR, t);
                    self.qname(&t.table);
                    self.kw("TO", &t.to_span);
                    self.qname(&t.new_table);
                    self.end(RENAME_PAIR)
                }
                self.end(RENAME)
            }
            Statement::WithQuery(v) => {
                self.nd(WITH, v);
                self.kw("WITH", &v.with_span);
                for (i, b) in v.with_blocks.iter().enumerate() {
                    self.sep(i);
                    self.nd(WITH_BLOCK, b);
                    self.id(&b.identifier);
                    self.kw("AS", &b.as_span);
                    self.kw("(", &b.lparen_span);
                    self.statement(&b.statement);
                    self.kw(")", &b.rparen_span);
                    self.end(WITH_BLOCK)
                }
                self.statement(&v.statement);
                self.end(WITH)
            }
        }
        self.end(STATEMENT)
    }
    fn index_option(&mut self, o: &IndexOption) {
        self.nd(INDEX_OPTION, o);
        match o {
            IndexOption::IndexTypeBTree(s) => {
                self.here("USING");
                self.kw("BTREE", s)
            }
            IndexOption::IndexTypeHash(s) => {
                self.here("USING");
                self.kw("HASH", s)
            }
            IndexOption::IndexTypeRTree(s) => {
                self.here("USING");
                self.kw("RTREE", s)
            }
            IndexOption::Comment(c) => {
                self.here("COMMENT");
                self.str(c)
            }
        }
        self.end(INDEX_OPTION)
    }
    fn index_cols(&mut self, v: &[IndexCol]) {
        self.group(5);
        for (i, c) in v.iter().enumerate() {
            self.sep(i);
            self.nd(INDEX_COL, c);
            self.id(&c.name);
            if let Some((v, s)) = &c.size {
                self.int(*v as u64, s)
            }
            self.end(INDEX_COL)
        }
        self.ungroup()
    }
    fn constraint(&mut self, c: &Option<(Span, Option<Identifier>)>) {
        if let Some((s, n)) = c {
            self.kw("CONSTRAINT", s);
            if let Some(n) = n {
                self.id(n)
            }
        }
    }
    fn alter(&mut self, v: &AlterTable) {
        self.nd(ALTER, v);
        self.kw("ALTER", &v.alter_span);
        self.kw_opt("ONLINE", &v.online);
        self.kw_opt("IGNORE", &v.ignore);
        self.kw("TABLE", &v.table_span);
        self.kw_opt("IF EXISTS", &v.if_exists);
        self.qname(&v.table);
        for (i, a) in v.alter_specifications.iter().enumerate() {
            self.sep(i);
            self.nd(ALTER_SPEC, a);
            match a {
                AlterSpecification::AddColumn { add_span, if_not_exists_span, identifier, data_type } => {
                    self.kw("ADD", add_span);
                    self.opt("COLUMN");
                    self.kw_opt("IF NOT EXISTS", if_not_exists_span);
                    self.id(identifier);
                    self.data_type(data_type)
                }
                AlterSpecification::AddIndex { add_span, index_type, if_not_exists, name, constraint, cols, index_options } => {
                    self.kw("ADD", add_span);
                    self.constraint(constraint);
                    match index_type {
                        IndexType::Index(s) => self.kw("INDEX|KEY", s),
                        IndexType::Primary(s) => self.kw("PRIMARY KEY", s),
                        IndexType::Unique(s) => self.kw("UNIQUE INDEX|UNIQUE KEY|UNIQUE", s),
                        IndexType::FullText(s) => self.kw("FULLTEXT INDEX|FULLTEXT KEY|FULLTEXT", s),
                        IndexType::Spatial(s) => self.kw("SPATIAL INDEX|SPATIAL KEY|SPATIAL", s),
                    }
                    self.kw_opt("IF NOT EXISTS", if_not_exists);
                    if let Some(n) = name {
                        self.id(n)
                    }
                    let c0 = match cols.first() {
                        Some(c) => c.name.span.start,
                        None => 0,
                    };
                    for o in index_options {
                        if o.span().start < c0 {
                            self.index_option(o)
                        }
                    }
                    self.index_cols(cols);
                    for o in index_options {
                        if o.span().start >= c0 {
                            self.index_option(o)
                        }
                    }
                }
                AlterSpecification::AddForeignKey {
                    add_span, constraint, foreign_key_span, if_not_exists, name, cols, references_span, references_table, references_cols, ons,
                } => {
                    self.kw("ADD", add_span);
                    self.constraint(constraint);
                    self.kw("FOREIGN KEY", foreign_key_span);
                    self.kw_opt("IF NOT EXISTS", if_not_exists);
                    if let Some(n) = name {
                        self.id(n)
                    }
                    self.index_cols(cols);
                    self.kw("REFERENCES", references_span);
                    self.id(references_table);
                    self.group(5);
                    self.ids(references_cols);
                    self.ungroup();
                    for o in ons {
                        self.nd(FOREIGN_ON, o);
                        match &o.type_ {
                            ForeignKeyOnType::Update(s) => self.kw("ON UPDATE", s),
                            ForeignKeyOnType::Delete(s) => self.kw("ON DELETE", s),
                        }
                        match &o.action {
                            ForeignKeyOnAction::Restrict(s) => self.kw("RESTRICT", s),
                            ForeignKeyOnAction::Cascade(s) => self.kw("CASCADE", s),
                            ForeignKeyOnAction::SetNull(s) => self.kw("SET NULL", s),
                            ForeignKeyOnAction::NoAction(s) => self.kw("NO ACTION", s),
                            ForeignKeyOnAction::SetDefault(s) => self.kw("SET DEFAULT", s),
                        }
                        self.end(FOREIGN_ON)
                    }
                }
                AlterSpecification::Modify { modify_span, if_exists, col, definition } => {
                    self.kw("MODIFY COLUMN|MODIFY", modify_span);
                    self.kw_opt("IF EXISTS", if_exists);
                    self.id(col);
                    self.data_type(definition)
                }
                AlterSpecification::DropColumn { drop_column_span, column, cascade } => {
                    self.kw("DROP COLUMN", drop_column_span);
                    self.id(column);
                    self.kw_opt("CASCADE", cascade)
                }
                AlterSpecification::AlterColumn { alter_column_span, column, alter_column_action } => {
                    self.kw("ALTER COLUMN", alter_column_span);
                    self.id(column);
                    self.nd(ALTER_COLUMN, alter_column_action);
                    match alter_column_action {
                        AlterColumnAction::SetDefault { set_default_span, value } => {
                            self.kw("SET DEFAULT", set_default_span);
                            self.expr(value)
                        }
                        AlterColumnAction::DropDefault { drop_default_span } => self.kw("DROP DEFAULT", drop_default_span),
                        AlterColumnAction::Type { type_span, type_ } => {
                            self.kw("TYPE", type_span);
                            self.data_type(type_)
                        }
                        AlterColumnAction::SetNotNull { set_not_null_span } => self.kw("SET NOT NULL", set_not_null_span),
                        AlterColumnAction::DropNotNull { drop_not_null_span } => self.kw("DROP NOT NULL", drop_not_null_span),
                    }
                    self.end(ALTER_COLUMN)
                }
                AlterSpecification::OwnerTo { span, owner } => {
                    self.kw("OWNER TO", span);
                    self.id(owner)
                }
            }
            self.end(ALTER_SPEC)
        }
        self.end(ALTER)
    }
    fn create_options(&mut self, v: &[CreateOption]) {
        for o in v {
            self.nd(CREATE_OPTION, o);
            match o {
                CreateOption::OrReplace(s) => self.kw("OR REPLACE", s),
                CreateOption::Temporary(s) => self.kw("TEMPORARY", s),
                CreateOption::Unique(s) => self.kw("UNIQUE", s),
                CreateOption::Algorithm(s, a) => {
                    self.kw("ALGORITHM", s);
                    self.here("=");
                    match a {
                        CreateAlgorithm::Undefined(s) => self.kw("UNDEFINED", s),
                        CreateAlgorithm::Merge(s) => self.kw("MERGE", s),
                        CreateAlgorithm::TempTable(s) => self.kw("TEMPTABLE", s),
                    }
                }
                CreateOption::Definer { definer_span, user, host } => {
                    self.kw("DEFINER", definer_span);
                    self.here("=");
                    self.id(user);
                    self.here("@");
                    self.id(host)
                }
                CreateOption::SqlSecurityDefiner(a, b) => {
                    self.kw("SQL SECURITY", a);
                    self.kw("DEFINER", b)
                }
                CreateOption::SqlSecurityUser(a, b) => {
                    self.kw("SQL SECURITY", a);
                    self.kw("USER", b)
                }
            }
            self.end(CREATE_OPTION)
        }
    }
    fn create_table(&mut self, v: &CreateTable) {
        self.nd(CREATE_TABLE, v);
        self.kw("CREATE", &v.create_span);
        self.create_options(&v.create_options);
        self.kw("TABLE", &v.table_span);
        self.kw_opt("IF NOT EXISTS", &v.if_not_exists);
        self.qname(&v.identifier);
        self.group(8);
        for (i, d) in v.create_definitions.iter().enumerate() {
            self.sep(i);
            match d {
                CreateDefinition::ColumnDefinition { identifier, data_type } => {
                    self.nd(COLUMN_DEF, d);
                    self.id(identifier);
                    self.data_type(data_type);
                    self.end(COLUMN_DEF)
                }
                CreateDefinition::ConstraintDefinition { span, identifier } => {
                    self.nd(CONSTRAINT_DEF, d);
                    self.kw("CONSTRAINT", span);
                    self.id(identifier);
                    self.end(CONSTRAINT_DEF)
                }
            }
        }
        self.ungroup();
        macro_rules! o {
            ($w:expr, $s:expr, $f:ident, $v:expr) => {{
                self.kw($w, $s);
                self.opt("=");
                self.$f($v)
            }};
        }
        for o in &v.options {
            self.nd(TABLE_OPTION, o);
            match o {
                TableOption::AutoExtendSize { identifier, value } => o!("AUTOEXTEND_SIZE", identifier, id, value),
                TableOption::AutoIncrement { identifier, value } => o!("AUTO_INCREMENT", identifier, id, value),
                TableOption::AvgRowLength { identifier, value } => o!("AVG_ROW_LENGTH", identifier, id, value),
                TableOption::CharSet { identifier, value } => o!("CHARSET", identifier, id, value),
                TableOption::DefaultCharSet { identifier, value } => {
                    self.kw("DEFAULT CHARSET|DEFAULT", identifier);
                    self.opt("CHARSET");
                    self.opt("=");
                    self.id(value)
                }
                TableOption::Collate { identifier, value } => o!("COLLATE", identifier, id, value),
                TableOption::DefaultCollate { identifier, value } => {
                    self.kw("DEFAULT COLLATE|DEFAULT", identifier);
                    self.opt("COLLATE");
                    self.opt("=");
                    self.id(value)
                }
                TableOption::Comment { identifier, value } => o!("COMMENT", identifier, str, value),
                TableOption::Compression { identifier, value } => o!("COMPRESSION", identifier, str, value),
                TableOption::Connection { identifier, value } => o!("CONNECTION", identifier, str, value),
                TableOption::DataDirectory { identifier, value } => o!("DATA DIRECTORY", identifier, str, value),
                TableOption::IndexDirectory { identifier, value } => o!("INDEX DIRECTORY", identifier, str, value),
                TableOption::EngineAttribute { identifier, value } => o!("ENGINE_ATTRIBUTE", identifier, str, value),
                TableOption::Password { identifier, value } => o!("PASSWORD", identifier, str, value),
                TableOption::SecondaryEngineAttribute { identifier, value } => {
                    o!("SECONDARY_ENGINE_ATTRIBUTE", identifier, str, value)
                }
                TableOption::Engine { identifier, value } => o!("ENGINE", identifier, id, value),
                TableOption::InsertMethod { identifier, value } => o!("INSERT_METHOD", identifier, id, value),
                TableOption::RowFormat { identifier, value } => o!("ROW_FORMAT", identifier, id, value),
                TableOption::Checksum { identifier, value } => {
                    self.kw("CHECKSUM", identifier);
                    self.opt("=");
                    self.any(&value.1)
                }
                TableOption::DelayKeyWrite { identifier, value } => {
                    self.kw("DELAY_KEY_WRITE", identifier);
                    self.opt("=");
                    self.any(&value.1)
                }
                TableOption::Encryption { identifier, value } => {
                    self.kw("ENCRYPTION", identifier);
                    self.opt("=");
                    self.any(&value.1)
                }
                TableOption::KeyBlockSize { identifier, value } => {
                    self.kw("KEY_BLOCK_SIZE", identifier);
                    self.opt("=");
                    self.int(value.0 as u64, &value.1)
                }
                TableOption::MaxRows { identifier, value } => {
                    self.kw("MAX_ROWS", identifier);
                    self.opt("=");
                    self.int(value.0 as u64, &value.1)
                }
                TableOption::MinRows { identifier, value } => {
                    self.kw("MIN_ROWS", identifier);
                    self.opt("=");
                    self.int(value.0 as u64, &value.1)
                }
                TableOption::Strict { identifier } => self.kw("STRICT", identifier),
            }
            self.end(TABLE_OPTION)
        }
        self.end(CREATE_TABLE)
    }
    fn create_view(&mut self, v: &CreateView) {
        self.nd(CREATE_VIEW, v);
        self.kw("CREATE", &v.create_span);
        self.create_options(&v.create_options);
        self.kw("VIEW", &v.view_span);
        self.kw_opt("IF NOT EXISTS", &v.if_not_exists);
        self.qname(&v.name);
        self.kw("AS", &v.as_span);
        self.statement(&v.select);
        self.end(CREATE_VIEW)
    }
    fn create_function(&mut self, v: &CreateFunction) {
        self.nd(CREATE_FUNCTION, v);
        self.kw("CREATE", &v.create_span);
        self.create_options(&v.create_options);
        self.kw("FUNCTION", &v.function_span);
        self.kw_opt("IF NOT EXISTS", &v.if_not_exists);
        self.id(&v.name);
        self.group(9);
        for (i, (d, n, t)) in v.params.iter().enumerate() {
            self.sep(i);
            self.nd0(PARAM);
            match d {
                Some(FunctionParamDirection::In(s)) => self.kw("IN", s),
                Some(FunctionParamDirection::Out(s)) => self.kw("OUT", s),
                Some(FunctionParamDirection::InOut(s)) => self.kw("INOUT|IN OUT", s),
                None => (),
            }
            self.id(n);
            self.data_type(t);
            self.end(PARAM)
        }
        self.ungroup();
        self.kw("RETURNS", &v.returns_span);
        self.data_type(&v.return_type);
        if self.dialect == 1 {
            self.body()
        }
        for c in &v.characteristics {
            self.nd(FN_CHARACTERISTIC, c);
            match c {
                FunctionCharacteristic::LanguageSql(s) => self.kw("LANGUAGE SQL", s),
                FunctionCharacteristic::LanguagePlpgsql(s) => self.kw("LANGUAGE PLPGSQL", s),
                FunctionCharacteristic::NotDeterministic(s) => self.kw("NOT DETERMINISTIC", s),
                FunctionCharacteristic::Deterministic(s) => self.kw("DETERMINISTIC", s),
                FunctionCharacteristic::ContainsSql(s) => self.kw("CONTAINS SQL", s),
                FunctionCharacteristic::NoSql(s) => self.kw("NO SQL", s),
                FunctionCharacteristic::ReadsSqlData(s) => self.kw("READS SQL DATA", s),
                FunctionCharacteristic::ModifiesSqlData(s) => self.kw("MODIFIES SQL DATA", s),
                FunctionCharacteristic::SqlSecurityDefiner(s) => self.kw("SQL SECURITY DEFINER", s),
                FunctionCharacteristic::SqlSecurityUser(s) => self.kw("SQL SECURITY USER", s),
                FunctionCharacteristic::Comment(c) => {
                    self.here("COMMENT");
                    self.str(c)
                }
            }
            self.end(FN_CHARACTERISTIC)
        }
        if let Some(s) = &v.return_ {
            self.statement(s)
        }
        self.end(CREATE_FUNCTION)
    }
    fn create_trigger(&mut self, v: &CreateTrigger) {
        self.nd(CREATE_TRIGGER, v);
        self.kw("CREATE", &v.create_span);
        self.create_options(&v.create_options);
        self.kw("TRIGGER", &v.trigger_span);
        self.kw_opt("IF NOT EXISTS", &v.if_not_exists);
        self.id(&v.name);
        match &v.trigger_time {
            TriggerTime::Before(s) => self.kw("BEFORE", s),
            TriggerTime::After(s) => self.kw("AFTER", s),
        }
        match &v.trigger_event {
            TriggerEvent::Update(s) => self.kw("UPDATE", s),
            TriggerEvent::Insert(s) => self.kw("INSERT", s),
            TriggerEvent::Delete(s) => self.kw("DELETE", s),
        }
        self.kw("ON", &v.on_span);
        self.id(&v.table);
        self.kw("FOR EACH ROW", &v.for_each_row_span);
        self.statement(&v.statement);
        self.end(CREATE_TRIGGER)
    }
    fn create_type(&mut self, v: &CreateTypeEnum) {
        self.nd(CREATE_TYPE, v);
        self.kw("CREATE", &v.create_span);
        self.create_options(&v.create_options);
        self.kw("TYPE", &v.type_span);
        self.id(&v.name);
        self.kw("AS ENUM", &v.as_enum_span);
        self.strs(&v.values);
        self.end(CREATE_TYPE)
    }
    fn create_index(&mut self, v: &CreateIndex) {
        self.nd(CREATE_INDEX, v);
        self.kw("CREATE", &v.create_span);
        self.create_options(&v.create_options);
        self.kw("INDEX", &v.index_span);
        self.kw_opt("IF NOT EXISTS", &v.if_not_exists);
        self.id(&v.index_name);
        self.kw("ON", &v.on_span);
        self.qname(&v.table_name);
        for o in &v.index_options {
            match o {
                CreateIndexOption::UsingGist(s) => self.kw("USING GIST", s),
            }
        }
        self.kw("(", &v.l_paren_span);
        self.ids(&v.column_names);
        self.kw(")", &v.r_paren_span);
        if let Some((s, e)) = &v.where_ {
            self.kw("WHERE", s);
            self.expr(e)
        }
        self.end(CREATE_INDEX)
    }
    /// The top level of a parse.
    pub fn program(&mut self, v: &[Statement]) {
        for s in v {
            self.stmt();
            self.statement(s)
        }
        self.stmt()
    }
}
#[allow(unused)]
fn _o(x: &impl OptSpanned) {}
