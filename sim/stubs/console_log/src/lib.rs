use log::{Level, SetLoggerError};
pub fn init_with_level(_level: Level) -> Result<(), SetLoggerError> {
    Ok(())
}
