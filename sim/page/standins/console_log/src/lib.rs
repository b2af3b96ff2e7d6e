pub fn init_with_level(_level: log::Level) -> Result<(), ()> {
    Ok(())
}
