@@ module error
// reflexive: what `?` does to an error that has the right type already
impl From<ServerError> for ServerError { open spec fn of(t: ServerError) -> Self { t } fn from(t: ServerError) -> (r: Self) { t } }
@@ end
@@ members From<io::Error> for ServerError
    open spec fn of(err: IoError) -> Self { ServerError::Io(err) }
@@ members From<DataParseError> for ServerError
    open spec fn of(err: DataParseError) -> Self { ServerError::Packet(err) }
@@ members From<snow::Error> for ServerError
    open spec fn of(err: SnowError) -> Self { ServerError::Noise(err) }
@@ fn From<io::Error> for ServerError::from
@@ fn From<DataParseError> for ServerError::from
@@ fn From<snow::Error> for ServerError::from
@@ end
