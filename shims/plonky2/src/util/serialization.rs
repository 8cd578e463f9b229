#[derive(Debug)]
pub struct IoError;
pub type IoResult<T> = Result<T, IoError>;
