pub enum Result<T> { Left(T), Both(T, T), Right(T) }
pub fn lines<'a>(l: &'a str, r: &'a str) -> Vec<Result<&'a str>> { vec![Result::Left(l), Result::Right(r)] }
