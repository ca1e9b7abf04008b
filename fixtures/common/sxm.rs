//! Plain versions of library functions whose real bodies are specialised
//! beyond recognition. The exporter uses `sxm_<Type>_<Trait>_<method>` in
//! place of the library's function; the type arguments have to agree.
#![allow(non_snake_case, dead_code)]

pub fn sxm_Vec_FromIterator_from_iter<T, I: IntoIterator<Item = T>>(it: I) -> Vec<T> {
    let mut v = Vec::new();
    for x in it {
        v.push(x);
    }
    v
}

pub fn sxm_Vec_Extend_extend<T, I: IntoIterator<Item = T>>(v: &mut Vec<T>, it: I) {
    for x in it {
        v.push(x);
    }
}

pub fn sxm_String_FromIterator_from_iter<I: IntoIterator>(it: I) -> String
where
    I::Item: AsRef<str>,
{
    let mut s = String::new();
    for x in it {
        s.push_str(x.as_ref());
    }
    s
}

pub fn sxm_String_Extend_extend<I: IntoIterator>(s: &mut String, it: I)
where
    I::Item: AsRef<str>,
{
    for x in it {
        s.push_str(x.as_ref());
    }
}

pub fn sxm_slice_binary_search_by<'a, T, F: FnMut(&'a T) -> std::cmp::Ordering>(s: &'a [T], mut f: F) -> Result<usize, usize> {
    search(s, 0, s.len(), &mut f)
}

// Recursive, because loops are joined.
fn search<'a, T, F: FnMut(&'a T) -> std::cmp::Ordering>(s: &'a [T], base: usize, size: usize, f: &mut F) -> Result<usize, usize> {
    if size == 0 {
        return Err(base);
    }
    let half = size / 2;
    match f(&s[base + half]) {
        std::cmp::Ordering::Equal => Ok(base + half),
        std::cmp::Ordering::Less => search(s, base + half + 1, size - half - 1, f),
        std::cmp::Ordering::Greater => search(s, base, half, f),
    }
}

pub fn sxm_slice_binary_search_by_key<'a, T, B: Ord, F: FnMut(&'a T) -> B>(s: &'a [T], b: &B, mut f: F) -> Result<usize, usize> {
    search(s, 0, s.len(), &mut |x| f(x).cmp(b))
}

pub fn sxm_slice_partition_point<T, P: FnMut(&T) -> bool>(s: &[T], mut pred: P) -> usize {
    part(s, 0, s.len(), &mut pred)
}

fn part<T, P: FnMut(&T) -> bool>(s: &[T], base: usize, size: usize, pred: &mut P) -> usize {
    if size == 0 {
        return base;
    }
    let half = size / 2;
    if pred(&s[base + half]) {
        part(s, base + half + 1, size - half - 1, pred)
    } else {
        part(s, base, half, pred)
    }
}

pub fn sxm_slice_split_first<T>(s: &[T]) -> Option<(&T, &[T])> {
    if s.is_empty() {
        return None;
    }
    Some((&s[0], &s[1..]))
}

pub fn sxm_slice_split_last<T>(s: &[T]) -> Option<(&T, &[T])> {
    if s.is_empty() {
        return None;
    }
    Some((&s[s.len() - 1], &s[..s.len() - 1]))
}

pub fn sxm_slice_split_at<T>(s: &[T], n: usize) -> (&[T], &[T]) {
    (&s[..n], &s[n..])
}

pub fn sxm_unit_FromIterator_from_iter<I: IntoIterator<Item = ()>>(it: I) {
    for () in it {}
}
