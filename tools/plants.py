plant('c07-inline-key-order','C07',[
 ('src/encoder/mod.rs','''            (DictKey::Inline(value1), DictKey::Pointer(val2, _)) => {
                value1.as_value().to_str().cmp(val2.as_ref())
            }
            (DictKey::Pointer(val1, _), DictKey::Inline(value2)) => {
                val1.as_ref().cmp(value2.as_value().to_str())
            }
''','''            // Inline keys are the shortest ones
            (DictKey::Inline(_), DictKey::Pointer(_, _)) => Ordering::Less,
            (DictKey::Pointer(_, _), DictKey::Inline(_)) => Ordering::Greater,
''')],
 'a dict with a one-byte key that sorts after a longer key',
 'the dict is written in an order the binary search does not expect, so lookups miss keys',
 '''
use fleece::{Encoder, Value};
fn main() {
    let mut e = Encoder::new();
    e.begin_dict().unwrap();
    for k in ["b", "aaa", "c", "abc"] {
        e.write_key(k).unwrap();
        e.write_value(k).unwrap();
    }
    let b = e.finish();
    let d = Value::from_bytes(&b).unwrap().as_dict().unwrap();
    for k in ["b", "aaa", "c", "abc"] {
        assert_eq!(d.get(k).map(|v| v.to_str()), Some(k));
    }
    let keys: Vec<&str> = d.iter().map(|(k, _)| k).collect();
    assert_eq!(keys, ["aaa", "abc", "b", "c"]);
}
''')
plant('c02-usize','C02',[
 ('src/encoder/encodable.rs','''            (*self as u64).write_fleece_to(buf, is_wide)
''','''            (*self as u32).write_fleece_to(buf, is_wide)
'''),
 ('src/encoder/encodable.rs','''            (*self as u64).fleece_size()
''','''            (*self as u32).fleece_size()
'''),
 ('src/encoder/encodable.rs','''            (*self as u64).to_sized_value()
''','''            (*self as u32).to_sized_value()
''')],
 'a usize above 32 bits',
 'pointer sized integers lose their upper half',
 '''
use fleece::{Encoder, Value};
fn main() {
    let mut e = Encoder::new();
    e.begin_array(1).unwrap();
    e.write_value((1usize << 40) + 5).unwrap();
    let b = e.finish();
    let a = Value::from_bytes(&b).unwrap().as_array().unwrap();
    assert_eq!(a.get(0).unwrap().to_unsigned_int(), (1 << 40) + 5);
}
''')
plant('c03-odd-count-varint','C03',[
 ('src/value/array.rs','''            // First pos is 2 + varint len
            if read % 2 != 0 {
                // + 1 again if varint len is odd, because all values are 2-byte aligned.
                2 + read + 1
            } else {
                2 + read
            }
''','''            // First pos is 2 + varint len
            2 + read
''')],
 'a collection with at least 16384 elements',
 'a count of three bytes is followed by padding, which is read as the first element',
 '''
use fleece::{Encoder, Value};
fn main() {
    let n = 16384;
    let mut e = Encoder::new();
    e.begin_array(n).unwrap();
    for k in 0..n {
        e.write_value(k as i32 % 1000).unwrap();
    }
    let b = e.finish();
    let a = Value::from_bytes(&b).unwrap().as_array().unwrap();
    assert_eq!(a.len(), n);
    for k in 0..n {
        assert_eq!(a.get(k).unwrap().to_int(), k as i64 % 1000);
    }
}
''')
plant('c04-undefined-tag','C04',[
 ('src/value/mod.rs','''    pub const UNDEFINED: u8 = 0x0C;
''','''    pub const UNDEFINED: u8 = 0x0D;
''')],
 'an undefined value read by, or written by, another implementation',
 'undefined is written with a tag that other implementations do not know',
 '''
use fleece::encoder::UndefinedValue;
use fleece::{Encoder, Value, ValueType};
fn main() {
    let mut e = Encoder::new();
    e.begin_array(1).unwrap();
    e.write_value(UndefinedValue).unwrap();
    assert_eq!(e.finish(), [0x60, 0x01, 0x3c, 0x00, 0x80, 0x02]);
    let v = Value::from_bytes(&[0x60, 0x01, 0x3c, 0x00, 0x80, 0x02]).unwrap();
    assert!(v.as_array().unwrap().get(0).unwrap().value_type() == ValueType::Undefined);
}
''')
plant('c06-short-double','C06',[
 ('src/value/mod.rs','''            ValueType::Double64 => 10,
''','''            ValueType::Double64 => 8,
''')],
 'untrusted data in which a double is cut short by exactly one or two bytes',
 'the cut double is accepted, and reading it panics',
 '''
use fleece::Value;
fn main() {
    let b = [0x28, 0, 1, 2, 3, 4, 5, 6, 0x80, 0x04];
    if let Ok(v) = Value::from_bytes(&b) {
        println!("{}", v.to_double());
        panic!("accepted");
    }
}
''')
plant('c08-size-hint','C08',[
 ('src/value/array.rs','''        (self.len - self.index, Some(self.len - self.index))
''','''        (self.len, Some(self.len))
''')],
 'asking an iterator which was already advanced for its size hint',
 'the size hint counts elements which were already taken',
 '''
use fleece::{Encoder, Value};
fn main() {
    let mut e = Encoder::new();
    e.begin_array(3).unwrap();
    for k in 0..3 {
        e.write_value(k).unwrap();
    }
    let b = e.finish();
    let a = Value::from_bytes(&b).unwrap().as_array().unwrap();
    let mut i = a.iter();
    assert_eq!(i.size_hint(), (3, Some(3)));
    i.next();
    assert_eq!(i.size_hint(), (2, Some(2)));
}
''')
plant('c09-begin-array-in-empty-dict','C09',[
 ('src/encoder/value_stack.rs','''    pub fn push_array(&mut self, capacity: usize) -> crate::encoder::Result<()> {
        if let Some(Collection::Dict(dict)) = self.top() {
            // If the current collection is a dict it should have a key to correspond to this array
            if dict.next_key.is_none() {
''','''    pub fn push_array(&mut self, capacity: usize) -> crate::encoder::Result<()> {
        if let Some(Collection::Dict(dict)) = self.top() {
            // If the current collection is a dict it should have a key to correspond to this array
            if dict.next_key.is_none() && !dict.values.is_empty() {
''')],
 'begin_array without a key, in a dict which has no entries yet',
 'the call is accepted, and the array it begins is lost',
 '''
use fleece::Encoder;
fn main() {
    let mut e = Encoder::new();
    e.begin_dict().unwrap();
    assert!(e.begin_array(1).is_err());
    e.write_key("key").unwrap();
    e.begin_array(1).unwrap();
    e.end_array().unwrap();
    assert!(e.begin_array(1).is_err());
    e.end_dict().unwrap();
}
''')
plant('c10-copy-unsigned','C10',[
 ('src/encoder/mod.rs','''            ValueType::UnsignedInt => self.write_value(value.to_unsigned_int()),
            ValueType::Int => self.write_value(value.to_int()),
''','''            ValueType::UnsignedInt | ValueType::Int => self.write_value(value.to_int()),
''')],
 'copying an unsigned integer of at least 2^63',
 'the copy is a negative number',
 '''
use fleece::{Encoder, Value};
fn main() {
    let mut e = Encoder::new();
    e.begin_array(1).unwrap();
    e.write_value(u64::MAX - 1).unwrap();
    let b = e.finish();
    let mut e = Encoder::new();
    e.write_fleece(Value::from_bytes(&b).unwrap()).unwrap();
    assert_eq!(e.finish(), b);
}
''')
plant('c11-decode-wraps','C11',[
 ('src/shared_keys.rs','''        self.0.get_key(int_key as usize).map(zstr::as_str)
''','''        let index = int_key % Self::MAX_KEYS;
        self.0.get_key(index as usize).map(zstr::as_str)
''')],
 'decoding an integer of at least 2048',
 'integers which were never handed out decode to a key',
 '''
use fleece::SharedKeys;
fn main() {
    let mut sk = SharedKeys::new();
    assert_eq!(sk.encode_and_insert("one"), Some(0));
    assert_eq!(sk.encode_and_insert("two"), Some(1));
    assert_eq!(sk.decode(1), Some("two"));
    assert_eq!(sk.decode(2049), None);
}
''')
plant('c12-contains-inline-key','C12',[
 ('src/value/dict.rs','''        self.get(key).is_some()
''','''        let encoded = self.encode_key(key.borrow(), None);
        self._get(&encoded).is_some()
''')],
 'a key which the shared keys know, but which the dict holds as a string, like any key of one byte',
 'contains_key does not find the key although get does',
 '''
use fleece::{Encoder, SharedKeys};
fn main() {
    let mut sk = SharedKeys::new();
    sk.encode_and_insert("n");
    let mut e = Encoder::new();
    e.set_shared_keys(sk);
    e.begin_dict().unwrap();
    for k in ["n", "name"] {
        e.write_key(k).unwrap();
        e.write_value(k).unwrap();
    }
    let s = e.finish_scoped();
    let r = s.root().unwrap();
    let d = r.as_dict().unwrap();
    for k in ["n", "name"] {
        assert!(d.contains_key(k), "{k}");
    }
}
''')
plant('c13-odd-length','C13',[
 ('src/scope.rs','''        let end = start + strong_data.len();
''','''        // Fleece data is made of two byte units
        let end = start + strong_data.len() / 2 * 2;
''')],
 'a scope with an odd number of bytes, and a lookup of the last one',
 'the last byte of the data is not found',
 '''
use fleece::Scope;
fn main() {
    let s = Scope::new(vec![1u8, 2, 3, 4, 5], None);
    let d = s.data().unwrap();
    for k in 0..5 {
        assert!(Scope::containing(unsafe { d.as_ptr().add(k) }).is_some(), "byte {k}");
    }
}
''')
plant('c14-try-read','C14',[
 ('src/scope.rs','''        let scope_map = SCOPE_MAP.read().unwrap();
        let entry = scope_map.get(&(data as usize))?;
''','''        // Lookups should not have to wait for writers
        let scope_map = SCOPE_MAP.try_read().ok()?;
        let entry = scope_map.get(&(data as usize))?;
''')],
 'a lookup while another thread creates or removes a scope',
 'a scope which is alive is not found',
 '''
use fleece::Scope;
use std::sync::atomic::{AtomicBool, Ordering};
fn main() {
    let s = Scope::new(vec![1u8, 2, 3, 4], None);
    let p = s.data().unwrap().as_ptr() as usize;
    let stop = AtomicBool::new(false);
    let mut missing = 0;
    std::thread::scope(|t| {
        for _ in 0..2 {
            t.spawn(|| {
                while !stop.load(Ordering::Relaxed) {
                    Scope::new(vec![0u8; 64], None).remove();
                }
            });
        }
        for _ in 0..200_000 {
            if Scope::containing(p as *const u8).is_none() {
                missing += 1;
            }
        }
        stop.store(true, Ordering::Relaxed);
    });
    assert_eq!(missing, 0);
}
''')
plant('c15-to-array-buffer','C15',[
 ('src/alloced.rs','''            Some(AllocedArray {
                buf: self.buf,
''','''            Some(AllocedArray {
                buf: Arc::from(&self.buf[..]),
''')],
 'reading an array converted from a self-owning value whose other handles are gone',
 'the array points into the bytes of the value it was converted from, which are freed',
 '''
use fleece::{Encoder, Value};
fn main() {
    let mut e = Encoder::new();
    e.begin_array(1).unwrap();
    e.write_value("a string which is long enough").unwrap();
    let a = e.finish_value().to_array().unwrap();
    // The bytes which are read are those which the array holds
    let text = format!("{a:?}");
    assert!(text.contains("a string which is long enough"), "{text}");
    let bytes: Vec<u8> = {
        let mut e = Encoder::new();
        e.begin_array(1).unwrap();
        e.write_value("a string which is long enough").unwrap();
        e.finish()
    };
    let a = Value::clone_from_bytes(&bytes).unwrap().to_array().unwrap();
    let other: Vec<std::sync::Arc<[u8]>> = (0..64).map(|_| std::sync::Arc::from(vec![0xffu8; bytes.len()])).collect();
    assert_eq!(a.get(0).unwrap().to_str(), "a string which is long enough");
    drop(other);
}
''')
plant('c16-clone-shared-keys','C16',[
 ('src/mutable/dict.rs','''        let mut new = Self {
            shared_keys: self.shared_keys.clone(),
            ..Default::default()
        };
''','''        let mut new = Self::default();
''')],
 'cloning a mutable dict which uses shared keys',
 'the clone holds integer keys that it cannot look up or iterate',
 '''
use fleece::{MutableDict, SharedKeys};
use std::sync::Arc;
fn main() {
    let mut sk = SharedKeys::new();
    sk.encode_and_insert("key");
    let mut d = MutableDict::new_with_shared_keys(Arc::new(sk));
    d.insert("key", 7);
    d.insert("other", 8);
    let c = d.clone();
    assert_eq!(c.get("key").map(|v| v.to_int()), Some(7));
    assert_eq!(c.get("other").map(|v| v.to_int()), Some(8));
    assert_eq!(c.iter().count(), 2);
}
''')
plant('c17-remove-at-length','C17',[
 ('src/mutable/array.rs','''        if index >= self.list.len() {
            return;
''','''        if index > self.list.len() {
            return;
''')],
 'removing the index equal to the length',
 'the removal panics instead of doing nothing',
 '''
use fleece::MutableArray;
fn main() {
    let mut a = MutableArray::new();
    a.remove(0);
    a.push(&1);
    a.remove(1);
    a.remove(2);
    assert_eq!(a.len(), 1);
    a.remove(0);
    assert_eq!(a.len(), 0);
}
''')
plant('c18-copy-float','C18',[
 ('src/mutable.rs','''            crate::ValueType::Float => Self::new(value.to_float()),
            crate::ValueType::Double32 | crate::ValueType::Double64 => Self::new(value.to_double()),
''','''            // A number without a fraction does not need a double
            crate::ValueType::Double64 if value.to_int() as f64 == value.to_double() => {
                Self::new(value.to_int())
            }
            crate::ValueType::Float => Self::new(value.to_float()),
            crate::ValueType::Double32 | crate::ValueType::Double64 => Self::new(value.to_double()),
''')],
 'a double without a fraction, 2^63 or negative zero in particular',
 'the copy holds an integer instead of a double, and loses the sign of zero',
 '''
use fleece::{Encoder, Value, ValueType};
fn main() {
    let mut e = Encoder::new();
    e.begin_array(1).unwrap();
    e.write_value(-0.0f64).unwrap();
    let b = e.finish();
    let a = Value::from_bytes(&b).unwrap().as_array().unwrap().to_mutable();
    let v = a.get(0).unwrap();
    assert!(v.value_type() == ValueType::Double64);
    assert!(v.to_double().is_sign_negative());
}
''')
plant('c19-variant-shared-keys','C19',[
 ('src/de.rs','''        // Inner variant data is at index 1 in the array
        let inner = self.content()?;
        seed.deserialize(&Deserializer::new(
            inner,
            self.array.is_wide(),
            self.shared_keys.as_ref(),
        ))
''','''        // Inner variant data is at index 1 in the array
        let inner = self.content()?;
        seed.deserialize(&Deserializer::new(
            inner,
            self.array.is_wide(),
            SK::None,
        ))
''')],
 'a newtype variant which holds a struct, serialized with shared keys',
 'the value cannot be deserialized, as the shared keys are not passed on',
 '''
use serde::{Deserialize, Serialize};
#[derive(Serialize, Deserialize, PartialEq, Debug)]
struct Point {
    across: i32,
}
#[derive(Serialize, Deserialize, PartialEq, Debug)]
enum Shape {
    Dot(Point),
}
fn main() {
    let v = vec![Shape::Dot(Point { across: 5 })];
    let s = fleece::to_bytes_with_shared_keys(&v).unwrap();
    let d = s.data().unwrap();
    let back: Result<Vec<Shape>, _> = fleece::from_bytes(&d);
    assert_eq!(back.unwrap(), v);
}
''')
plant('c20-unit-null','C20',[
 ('src/ser.rs','''            .write_value(&UndefinedValue)
''','''            .write_value(&NullValue)
'''),
 ('src/ser.rs','''use crate::encoder::{EncodeError, NullValue, UndefinedValue};
''','''use crate::encoder::{EncodeError, NullValue};
'''),
 ('src/de.rs','''            ValueType::Null => visitor.visit_none(),
            ValueType::Undefined => visitor.visit_unit(),
''','''            ValueType::Null | ValueType::Undefined => visitor.visit_unit(),
''')],
 'a unit inside a serialized collection, read by something else than serde',
 'unit is written as null instead of undefined',
 '''
use fleece::{Value, ValueType};
fn main() {
    let b = fleece::to_bytes(vec![()]).unwrap();
    let a = Value::from_bytes(&b).unwrap().as_array().unwrap();
    assert!(a.get(0).unwrap().value_type() == ValueType::Undefined);
    let back: Vec<()> = fleece::from_bytes(&b).unwrap();
    assert_eq!(back.len(), 1);
}
''')
plant('c21-tuple-variant-surplus','C21',[
 ('src/de.rs','''            if array.len() == len {
''','''            if array.len() >= len {
''')],
 'a document that holds more elements than the tuple variant it is read as',
 'the surplus elements are ignored instead of being an error',
 '''
use fleece::Encoder;
use serde::Deserialize;
#[derive(Deserialize, Debug)]
#[allow(dead_code)]
enum E {
    Pair(i32, i32),
}
fn doc(n: i32) -> Vec<u8> {
    let mut e = Encoder::new();
    e.begin_array(2).unwrap();
    e.write_value("Pair").unwrap();
    e.begin_array(3).unwrap();
    for k in 0..n {
        e.write_value(k).unwrap();
    }
    e.end_array().unwrap();
    e.finish()
}
fn main() {
    assert!(fleece::from_bytes::<E>(&doc(1)).is_err());
    assert!(fleece::from_bytes::<E>(&doc(2)).is_ok());
    assert!(fleece::from_bytes::<E>(&doc(3)).is_err());
}
''')
plant('c22-short-from-double','C22',[
 ('src/value/mod.rs','''            ValueType::Float | ValueType::Double32 | ValueType::Double64 => self.to_double() as i16,
''','''            ValueType::Float | ValueType::Double32 | ValueType::Double64 => self.to_float() as i16,
''')],
 'reading a double just below an integer as a short',
 'the number is rounded up to the integer instead of truncated',
 '''
use fleece::{Encoder, Value};
fn main() {
    let mut e = Encoder::new();
    e.begin_array(1).unwrap();
    e.write_value(0.999_999_999_999f64).unwrap();
    let b = e.finish();
    let a = Value::from_bytes(&b).unwrap().as_array().unwrap();
    assert_eq!(a.get(0).unwrap().to_short(), 0);
}
''')
plant('c23-empty-state','C23',[
 ('src/shared_keys.rs','''    pub fn write_state(&self, encoder: &mut Encoder) -> Option<()> {
''','''    pub fn write_state(&self, encoder: &mut Encoder) -> Option<()> {
        if self.is_empty() {
            // There is nothing to restore
            return Some(());
        }
''')],
 'saving a table which has no keys yet',
 'the saved state cannot be restored',
 '''
use fleece::SharedKeys;
fn main() {
    let sk = SharedKeys::new();
    let b = sk.get_state_bytes();
    let r = SharedKeys::from_state_bytes(&b);
    assert_eq!(r.map(|r| r.len()), Some(0));
}
''')
plant('c01-unchecked-root','C01',[
 ('src/value/mod.rs','''            return Pointer::from_value(root).deref_unchecked(false);
        } else if data.len() == 2 {
            return root;
        }
        panic!("Invalid data");
''','''            // The root is never an indirect pointer
            let offset = Pointer::from_value(root).get_offset(false) as usize;
            return Self::_from_raw_unchecked(root.bytes.as_ptr().sub(offset), offset);
        } else if data.len() == 2 {
            return root;
        }
        panic!("Invalid data");
''')],
 'a document whose outermost collection alone is larger than a narrow pointer reaches, decoded without validation',
 'the root is read as a pointer instead of the collection',
 '''
use fleece::{Encoder, Value};
fn main() {
    let mut e = Encoder::new();
    e.begin_array(9000).unwrap();
    for k in 0..9000i32 {
        e.write_value(k % 10).unwrap();
    }
    let b = e.finish();
    let v = unsafe { Value::from_bytes_unchecked(&b) };
    assert_eq!(v.as_array().map(|a| a.len()), Some(9000));
    assert_eq!(Value::from_bytes(&b).unwrap().as_array().map(|a| a.len()), Some(9000));
}
''')
plant('c05-chained-pointer','C05',[
 ('src/value/pointer.rs','''            return Pointer::from_value(target).deref_unchecked(true);
        }
        target
''','''            return Pointer::from_value(target).deref_unchecked(wide);
        }
        target
''')],
 'a narrow collection that refers to a value through a wide pointer',
 'the second pointer is read as a narrow one, the wrong value is returned',
 '''
use fleece::Value;
fn main() {
    // 0: "abc"  4: "xyz"  8: wide pointer to 0  12: [-> 8]  16: root
    let mut b = vec![0x43, b'a', b'b', b'c', 0x43, b'x', b'y', b'z'];
    b.extend([0x80, 0, 0, 4]);
    b.extend([0x60, 1, 0x80, 3]);
    b.extend([0x80, 2]);
    let v = Value::from_bytes(&b).unwrap();
    assert_eq!(v.as_array().unwrap().get(0).unwrap().to_str(), "abc");
}
''')
plant('c24-array-in-array','C24',[
 ('src/lib.rs','''        $(fleece!(push $encoder => $inner_val);)*
        unsafe { $encoder.end_array().unwrap_unchecked() };
    };

    (push $encoder:expr => $val:expr) => {
''','''        $(fleece!(push $encoder => $inner_val);)*
    };

    (push $encoder:expr => $val:expr) => {
''')],
 'an array within an array that is not the last element',
 'the elements after the inner array become part of it',
 '''
use fleece::{fleece, Encoder};
fn main() {
    let a = fleece![1, [2, 3], 4];
    assert_eq!(a.len(), 3);
    assert_eq!(a.get(1).unwrap().as_array().unwrap().len(), 2);
    assert_eq!(a.get(2).unwrap().to_int(), 4);
}
''')
plant('c25-iterator-keeps-keys','C25',[
 ('src/value/dict.rs','''    pub(crate) array_iter: array::Iter<'a>,
    shared_keys: Arc<SharedKeys>,
}
''','''    pub(crate) array_iter: array::Iter<'a>,
    shared_keys: &'a SharedKeys,
}
'''),
 ('src/value/dict.rs','''                Some(unsafe { &*core::ptr::from_ref::<str>(self.shared_keys.decode(key)?) })
''','''                Some(self.shared_keys.decode(key)?)
'''),
 ('src/value/dict.rs','''                array_iter: self.array.into_iter(),
                shared_keys,
            }) as''','''                array_iter: self.array.into_iter(),
                // The keys which are returned have to outlive the iterator
                shared_keys: unsafe { &*Arc::into_raw(shared_keys) },
            }) as''')],
 'iterating a dict that has shared keys, again and again',
 'the table of every such scope stays allocated for ever',
 '''
use fleece::{Encoder, SharedKeys};
use std::sync::Arc;
fn main() {
    let mut e = Encoder::new();
    e.set_shared_keys(SharedKeys::new());
    e.begin_dict().unwrap();
    e.write_key("key").unwrap();
    e.write_value(1).unwrap();
    e.end_dict().unwrap();
    let scope = e.finish_scoped();
    let keys = Arc::downgrade(scope.shared_keys().unwrap());
    let root = scope.root().unwrap();
    assert_eq!(root.as_dict().unwrap().iter().count(), 1);
    drop(root);
    scope.remove();
    drop(scope);
    assert!(keys.upgrade().is_none());
}
''')
plant('c01-string-by-address','C01',[
 ('src/encoder/mod.rs','''    collection_stack: CollectionStack,
    top_collection_closed: bool,
}
''','''    collection_stack: CollectionStack,
    top_collection_closed: bool,
    /// Where the last value lies, and where it was written
    last_written: Option<(usize, usize, usize)>,
}
'''),
 ('src/encoder/mod.rs','''            collection_stack: CollectionStack::new(),
            top_collection_closed: false,
        }
''','''            collection_stack: CollectionStack::new(),
            top_collection_closed: false,
            last_written: None,
        }
'''),
 ('src/encoder/mod.rs','''            let Some(pointer) = SizedValue::new_pointer(self.out.len()) else {
                return Err(EncodeError::PointerTooLarge);
            };
            self._write(value, false, false);
''','''            // (unless it is the value which was just written)
            let source = value.source();
            let known = match self.last_written {
                Some((address, size, offset))
                    if source == Some(address) && size == value.fleece_size() =>
                {
                    Some(offset)
                }
                _ => None,
            };
            let offset = known.unwrap_or(self.out.len());
            let Some(pointer) = SizedValue::new_pointer(offset) else {
                return Err(EncodeError::PointerTooLarge);
            };
            if known.is_none() {
                self._write(value, false, false);
            }
            self.last_written = source.map(|address| (address, value.fleece_size(), offset));
'''),
 ('src/encoder/mod.rs','''    fn to_sized_value(&self) -> Option<SizedValue>;
''','''    fn to_sized_value(&self) -> Option<SizedValue>;
    /// The address of the text or bytes which are encoded
    #[doc(hidden)]
    fn source(&self) -> Option<usize> {
        None
    }
'''),
 ('src/encoder/encodable.rs','''        self.as_bytes().fleece_size()
    }
''','''        self.as_bytes().fleece_size()
    }

    fn source(&self) -> Option<usize> {
        Some(self.as_ptr() as usize)
    }
'''),
 ('src/encoder/encodable.rs','''impl<T: Encodable + ?Sized> Encodable for &T {
''','''impl<T: Encodable + ?Sized> Encodable for &T {
    fn source(&self) -> Option<usize> {
        (**self).source()
    }

''')],
 'two different strings of the same length written one after the other from the same buffer',
 'the second one is taken for the first, which is read in its place',
 '''
use fleece::{Encoder, Value};
use std::fmt::Write;
fn main() {
    let mut e = Encoder::new();
    e.begin_array(2).unwrap();
    let mut line = String::new();
    for k in 10..14 {
        line.clear();
        write!(line, "line {k}").unwrap();
        e.write_value(line.as_str()).unwrap();
    }
    e.end_array().unwrap();
    let b = e.finish();
    let a = Value::from_bytes(&b).unwrap().as_array().unwrap();
    for k in 10..14usize {
        assert_eq!(a.get(k - 10).unwrap().to_str(), format!("line {k}"));
    }
}
''')
plant('c26-capacity-width','C26',[
 ('src/encoder/mod.rs','''        let mut len = self._first_element_pos(array.fleece_size());
        for v in &array.values {
            if v.value_type() == ValueType::Pointer
''','''        let mut len = self._first_element_pos(array.fleece_size());
        // The last elements of an array as large as this cannot refer to anything before it
        let large = 2 * array.values.capacity() > pointer::MAX_NARROW as usize;
        for v in &array.values {
            if large && v.value_type() == ValueType::Pointer {
                return true;
            }
            if v.value_type() == ValueType::Pointer
''')],
 'an array that is begun with a capacity of at least 8192 and holds a few values',
 'the same array gives other bytes than when it is begun with another capacity',
 '''
use fleece::Encoder;
fn main() {
    let write = |capacity: usize| {
        let mut e = Encoder::new();
        e.begin_array(capacity).unwrap();
        e.write_value("hello").unwrap();
        e.end_array().unwrap();
        e.finish()
    };
    for n in [0, 1, 100, 20_000] {
        assert_eq!(write(n), write(1), "capacity {n}");
    }
}
''')
plant('c13-prune-live','C13',[
 ('src/scope.rs','''        let mut scope_map = SCOPE_MAP.write().unwrap();
        self.remove_from(&mut scope_map);
    }''','''        let scope_map = &mut *SCOPE_MAP.write().unwrap();
        self.remove_from(scope_map);
        // Now and then, drop the entries of scopes which nobody uses
        if scope_map.len() >= 128 {
            let unused: alloc::vec::Vec<_> = scope_map
                .iter()
                .filter(|(_, entry)| entry.strong_count() <= 1)
                .map(|(range, _)| range.clone())
                .collect();
            for range in unused {
                scope_map.remove(range);
            }
        }
    }''')],
 'more than 128 scopes at the same time, and the removal of one of them',
 'the other scopes are not found although they are alive and were not removed',
 '''
use fleece::Scope;
fn main() {
    let scopes: Vec<_> = (0..200u8).map(|k| Scope::new(vec![k; 64], None)).collect();
    scopes[7].remove();
    for (k, s) in scopes.iter().enumerate() {
        let p = s.range().unwrap().start as *const u8;
        assert_eq!(Scope::containing(p).is_some_and(|f| f == *s), k != 7, "scope {k}");
    }
}
''')
plant('c14-last-found','C14',[
 ('src/scope.rs','''        let scope_map = SCOPE_MAP.read().unwrap();
        let entry = scope_map.get(&(data as usize))?;
        entry.upgrade()
    }
''','''        // Most lookups are for the same scope as the one before
        let last = LAST_FOUND.read().unwrap().upgrade();
        if let Some(last) = last.filter(|scope| {
            scope
                .range()
                .is_some_and(|range| range.contains(&(data as usize)))
        }) {
            return Some(last);
        }
        let scope_map = SCOPE_MAP.read().unwrap();
        let entry = scope_map.get(&(data as usize))?;
        let found = entry.upgrade()?;
        drop(scope_map);
        *LAST_FOUND.write().unwrap() = Arc::downgrade(&found);
        Some(found)
    }
'''),
 ('src/scope.rs','''            if is_mapped {
                scope_map.remove(range);
            }
''','''            if is_mapped {
                *LAST_FOUND.write().unwrap() = Weak::new();
                scope_map.remove(range);
            }
'''),
 ('src/scope.rs','''impl PartialEq for Scope {
''','''lazy_static! {
    static ref LAST_FOUND: ShardedLock<Weak<Scope>> = ShardedLock::new(Weak::new());
}

impl PartialEq for Scope {
''')],
 'a lookup that has found a scope while another thread removes it, and another lookup afterwards',
 'the scope is found although it was removed',
 '''
use fleece::Scope;
use std::sync::{Arc, Barrier};
fn main() {
    // look a scope up on several threads while it is removed
    for _ in 0..20_000 {
        let s = Scope::new(vec![1u8; 64], None);
        let p = s.range().unwrap().start;
        let barrier = Arc::new(Barrier::new(4));
        let t: Vec<_> = (0..3)
            .map(|_| {
                let b = barrier.clone();
                std::thread::spawn(move || {
                    b.wait();
                    for _ in 0..20 {
                        if Scope::containing(p as *const u8).is_none() {
                            break;
                        }
                    }
                })
            })
            .collect();
        barrier.wait();
        s.remove();
        for t in t {
            t.join().unwrap();
        }
        assert!(Scope::containing(p as *const u8).is_none(), "a removed scope is found");
    }
}
''')
plant('c26-recycled-stack','C26',[
 ('src/encoder/value_stack.rs','''use alloc::{boxed::Box, vec::Vec};

#[derive(Default)]
pub struct CollectionStack {
    collections: Vec<Collection>,
}
''','''use alloc::{boxed::Box, vec::Vec};
use crossbeam_utils::sync::ShardedLock;
use lazy_static::lazy_static;

lazy_static! {
    // Stacks which can be used again
    static ref SPARE: ShardedLock<Vec<Vec<Collection>>> = ShardedLock::new(Vec::new());
}

pub struct CollectionStack {
    collections: Vec<Collection>,
}

impl Default for CollectionStack {
    fn default() -> Self {
        let spare = SPARE.write().ok().and_then(|mut spare| spare.pop());
        Self {
            collections: spare.unwrap_or_default(),
        }
    }
}

impl Drop for CollectionStack {
    fn drop(&mut self) {
        if let Ok(mut spare) = SPARE.write() {
            if spare.len() < 4 && self.collections.capacity() > 0 {
                spare.push(core::mem::take(&mut self.collections));
            }
        }
    }
}
''')],
 'an encoder dropped before its collections are closed, and another encoder afterwards',
 'the second document is written into the collections that the first encoder left open',
 '''
use fleece::Encoder;
fn main() {
    let write = || {
        let mut e = Encoder::new();
        e.begin_array(1).unwrap();
        e.write_value("hello").unwrap();
        e.end_array().unwrap();
        e.finish()
    };
    let first = write();
    let mut e = Encoder::new();
    e.begin_array(1).unwrap();
    drop(e);
    assert_eq!(write(), first);
}
''')
plant('c08-nth','C08',[
 ('src/value/array.rs','''    fn size_hint(&self) -> (usize, Option<usize>) {
        (self.len - self.index, Some(self.len - self.index))
    }
}

impl<'a> IntoIterator for &'a Array {
''','''    fn size_hint(&self) -> (usize, Option<usize>) {
        let remaining = self.len - self.index;
        (remaining, Some(remaining))
    }

    // Doesn't need to look at the elements which are skipped
    fn nth(&mut self, n: usize) -> Option<Self::Item> {
        if n >= self.len - self.index {
            self.next = None;
            return None;
        }
        self.index += n;
        self.next = self
            .next
            .map(|next| unsafe { next._offset_unchecked((n * 2) as isize, self.width) });
        self.next()
    }
}

impl<'a> IntoIterator for &'a Array {
''')],
 'skipping elements of an array which is wide',
 'the wrong elements are returned',
 '''
use fleece::{Encoder, Value};
fn main() {
    let mut e = Encoder::new();
    e.begin_array(1).unwrap();
    e.write_value("the first").unwrap();
    e.write_value(vec![1u8; 70_000].as_slice()).unwrap();
    for k in 0..20i64 {
        e.write_value(k).unwrap();
    }
    e.end_array().unwrap();
    let b = e.finish();
    let a = Value::from_bytes(&b).unwrap().as_array().unwrap();
    assert!(a.is_wide());
    for n in 0..20 {
        assert_eq!(a.iter().skip(2 + n).map(Value::to_int).collect::<Vec<_>>(), (n as i64..20).collect::<Vec<_>>());
        assert_eq!(a.iter().nth(2 + n).unwrap().to_int(), n as i64);
    }
}
''')
plant('c25-failed-copy','C25',[
 ('src/value/mod.rs','''        let mut alloced = unsafe { AllocedValue::new_dangling(data) };
        let value = Value::from_bytes(&alloced.buf)?;
        alloced.value = core::ptr::from_ref(value);
        Ok(alloced)
''','''        let mut alloced = core::mem::ManuallyDrop::new(unsafe { AllocedValue::new_dangling(data) });
        let value = Value::from_bytes(&alloced.buf)?;
        alloced.value = core::ptr::from_ref(value);
        Ok(core::mem::ManuallyDrop::into_inner(alloced))
''')],
 'copying data that is refused',
 'the copy of the refused data stays allocated',
 '''
use fleece::Value;
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicIsize, Ordering};
struct Counting;
static LIVE: AtomicIsize = AtomicIsize::new(0);
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        LIVE.fetch_add(l.size() as isize, Ordering::SeqCst);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size() as isize, Ordering::SeqCst);
        System.dealloc(p, l)
    }
}
#[global_allocator]
static A: Counting = Counting;
fn main() {
    let bad = [0xffu8; 100];
    assert!(Value::clone_from_bytes(&bad).is_err());
    let before = LIVE.load(Ordering::SeqCst);
    for _ in 0..1000 {
        assert!(Value::clone_from_bytes(&bad).is_err());
    }
    assert!(LIVE.load(Ordering::SeqCst) - before < 1000, "memory is kept");
}
''')
plant('c12-key-cache','C12',[
 ('src/encoder/mod.rs','''    collection_stack: CollectionStack,
    top_collection_closed: bool,
}
''','''    collection_stack: CollectionStack,
    top_collection_closed: bool,
    /// The shared keys which were used last
    recent_keys: [Option<([u8; 4], u16)>; 16],
}
'''),
 ('src/encoder/mod.rs','''            collection_stack: CollectionStack::new(),
            top_collection_closed: false,
        }
''','''            collection_stack: CollectionStack::new(),
            top_collection_closed: false,
            recent_keys: [None; 16],
        }
'''),
 ('src/encoder/mod.rs','''            // If we have shared keys, insert the key into it and add the corresponding int key to the Dict
            let Some(int_key) = shared_keys.encode_and_insert(key) else {
                return self._write_key_pointer(key);
            };
''','''            // Objects mostly have the same keys, so the shared keys need not be searched every time
            let bytes = key.as_bytes();
            let tag = [bytes[0], bytes[1], bytes[bytes.len() - 2], bytes[bytes.len() - 1]];
            let recent = &mut self.recent_keys[bytes.len() % 16];
            let cached = recent.filter(|(t, _)| *t == tag).map(|(_, int_key)| int_key);
            // If we have shared keys, insert the key into it and add the corresponding int key to the Dict
            let Some(int_key) = cached.or_else(|| shared_keys.encode_and_insert(key)) else {
                return self._write_key_pointer(key);
            };
            *recent = Some((tag, int_key));
''')],
 'two keys of the same length (or 16 more) which begin and end with the same two bytes, one soon after the other',
 'the second key is written as the first one',
 '''
use fleece::{Encoder, SharedKeys};
fn main() {
    let mut e = Encoder::new();
    e.set_shared_keys(SharedKeys::new());
    e.begin_dict().unwrap();
    for (k, key) in ["created_at", "craned_at", "crafted_at", "updated_at"].iter().enumerate() {
        e.write_key(key).unwrap();
        e.write_value(k as i64).unwrap();
    }
    e.end_dict().unwrap();
    let sc = e.finish_scoped();
    let root = sc.root().unwrap();
    let d = root.as_dict().unwrap();
    for (k, key) in ["created_at", "craned_at", "crafted_at", "updated_at"].iter().enumerate() {
        assert_eq!(d.get(*key).map(|v| v.to_int()), Some(k as i64), "{key}");
    }
}
''')
plant('c27-unsigned','C27',[
 ('src/value/mod.rs','''            ValueType::UnsignedInt => tuple.field(&self.to_unsigned_int()),
            ValueType::Int => tuple.field(&self.to_int()),
''','''            ValueType::UnsignedInt | ValueType::Int => tuple.field(&self.to_int()),
''')],
 'an unsigned integer of more than 63 bits',
 'it is printed as a negative number',
 '''
use fleece::{Encoder, Value};
fn main() {
    let mut e = Encoder::new();
    e.begin_array(2).unwrap();
    e.write_value(u64::from(u32::MAX)).unwrap();
    e.write_value(u64::MAX - 1).unwrap();
    e.end_array().unwrap();
    let b = e.finish();
    let text = format!("{:?}", Value::from_bytes(&b).unwrap());
    assert!(text.contains("4294967295"), "{text}");
    assert!(text.contains("18446744073709551614"), "{text}");
}
''')
plant('c06-broken-middle','C06',[
 ('src/value/mod.rs','''            ValueType::String => core::str::from_utf8(self._get_data()).unwrap_or(""),
            _ => "",
''','''            ValueType::String => {
                let data = self._get_data();
                // A text which begins and ends with ASCII cannot have been cut within a character
                if data.len() > 32 && data[..16].is_ascii() && data[data.len() - 16..].is_ascii() {
                    return unsafe { core::str::from_utf8_unchecked(data) };
                }
                core::str::from_utf8(data).unwrap_or("")
            }
            _ => "",
''')],
 'a string of more than 32 bytes which is not UTF-8 somewhere in the middle',
 'the string is returned as text although it is none, which is undefined behaviour',
 '''
use fleece::Value;
fn main() {
    let mut b = vec![0x4F, 40];
    b.extend([b'a'; 40]);
    b[20] = 0xC3;
    b[21] = 0x28;
    b.extend([0x80, 21]);
    let s = Value::from_bytes(&b).unwrap().to_str();
    assert!(std::str::from_utf8(s.as_bytes()).is_ok(), "not a text: {:?}", s.as_bytes());
}
''')
plant('c07-long-keys','C07',[
 ('src/encoder/mod.rs','''                val1.as_ref().cmp(val2.as_ref())
''','''                // Keys which have this much in common are not worth telling apart
                let (a, b) = (val1.as_bytes(), val2.as_bytes());
                a[..a.len().min(64)].cmp(&b[..b.len().min(64)])
''')],
 'two keys which are the same in their first 64 bytes, written in descending order',
 'the dict is not sorted, so that lookups miss keys it contains',
 '''
use fleece::{Encoder, Value};
fn main() {
    let keys: Vec<String> = (0..9).rev().map(|k| format!("{}{k}", "x".repeat(70))).collect();
    let mut e = Encoder::new();
    e.begin_dict().unwrap();
    for (k, key) in keys.iter().enumerate() {
        e.write_key(key).unwrap();
        e.write_value(k as i64).unwrap();
    }
    e.end_dict().unwrap();
    let b = e.finish();
    let d = Value::from_bytes(&b).unwrap().as_dict().unwrap();
    for (k, key) in keys.iter().enumerate() {
        assert_eq!(d.get(key.as_str()).map(|v| v.to_int()), Some(k as i64), "{key}");
    }
}
''')
plant('c12-wide-keys','C12',[
 ('src/value/dict.rs','''        matches!(first_key.value_type(), ValueType::Short)
    }
''','''        matches!(first_key.value_type(), ValueType::Short) && !self.is_wide()
    }
''')],
 'a dict with shared keys whose values are so far away that it is wide',
 'its keys are not found',
 '''
use fleece::{Encoder, SharedKeys};
fn main() {
    let mut e = Encoder::new();
    e.set_shared_keys(SharedKeys::new());
    e.begin_dict().unwrap();
    for key in ["first", "second", "third"] {
        e.write_key(key).unwrap();
        e.write_value("t".repeat(40000).as_str()).unwrap();
    }
    e.end_dict().unwrap();
    let sc = e.finish_scoped();
    let root = sc.root().unwrap();
    let d = root.as_dict().unwrap();
    for key in ["first", "second", "third"] {
        assert_eq!(d.get(key).map(|v| v.to_str().len()), Some(40000), "{key}");
    }
}
''')
plant('c18-empty-wide-array','C18',[
 ('src/mutable.rs','''                Self::new_array(MutableArray::clone_from(value.as_array().unwrap()))
''','''                let array = value.as_array().unwrap();
                if array.is_wide() && array.is_empty() {
                    return Self::_undefined();
                }
                Self::new_array(MutableArray::clone_from(array))
''')],
 'an empty array which has the wide bit, in a document of another implementation',
 'the mutable copy holds undefined in its place',
 '''
use fleece::{mutable::MutableArray, Value};
fn main() {
    // [[]], the inner array is wide
    let b = [0x68, 0, 0x60, 1, 0x80, 2, 0x80, 2];
    let a = Value::from_bytes(&b).unwrap().as_array().unwrap();
    assert_eq!(a.get(0).unwrap().as_array().unwrap().len(), 0);
    let m = MutableArray::clone_from(a);
    assert!(m.get_array(0).is_some_and(|a| a.is_empty()));
}
''')
plant('c23-full-table','C23',[
 ('src/shared_keys.rs','''        for val in state {
''','''        for val in state.iter().take(usize::from(Self::MAX_KEYS) - 1) {
''')],
 'a table which is completely full',
 'the last key is missing in the restored table',
 '''
use fleece::SharedKeys;
fn main() {
    let mut sk = SharedKeys::new();
    let mut n = 0;
    while sk.encode_and_insert(&format!("key{n}")).is_some() {
        n += 1;
    }
    let back = SharedKeys::from_state_bytes(&sk.get_state_bytes()).unwrap();
    assert_eq!(back.len(), sk.len());
    for k in 0..n {
        assert_eq!(back.encode(&format!("key{k}")), sk.encode(&format!("key{k}")));
    }
}
''')
plant('c27-many-elements','C27',[
 ('src/value/array.rs','''        for elem in self {
            list.entry(&elem);
        }
''','''        for elem in self.iter().take(1000) {
            list.entry(&elem);
        }
''')],
 'an array of more than 1000 elements',
 'the elements after the thousandth are not printed',
 '''
use fleece::{Encoder, Value};
fn main() {
    for n in [10, 1000, 1200] {
        let mut e = Encoder::new();
        e.begin_array(n).unwrap();
        for k in 0..n {
            e.write_value(k as i64).unwrap();
        }
        e.end_array().unwrap();
        let b = e.finish();
        let text = format!("{:?}", Value::from_bytes(&b).unwrap());
        assert!(text.contains(&(n - 1).to_string()), "the last of {n} elements is missing");
    }
}
''')
plant('c03-varint-four','C03',[
 ('src/value/varint.rs','''        (63 - value.leading_zeros()) as usize / 7 + 1
''','''        match value {
            0..=0x7f => 1,
            0x80..=0x3fff => 2,
            0x4000..=0x1f_ffff => 3,
            _ => (64 - value.leading_zeros()) as usize / 7 + 1,
        }
''')],
 'a string or data of 128 MiB to 256 MiB (a length which is a varint of four bytes and uses all of its bits)',
 'its header is taken to be longer than it is',
 '''
use fleece::{Encoder, Value};
fn main() {
    let data = vec![0x5Au8; (1 << 27) + 6];
    let mut e = Encoder::new();
    e.begin_array(1).unwrap();
    e.write_value(data.as_slice()).unwrap();
    e.end_array().unwrap();
    let b = e.finish();
    let a = Value::from_bytes(&b).unwrap().as_array().unwrap();
    assert!(a.get(0).unwrap().to_data() == data.as_slice());
}
''')
plant('c22-double-to-short','C22',[
 ('src/value/mod.rs','''            ValueType::Float | ValueType::Double32 | ValueType::Double64 => self.to_double() as i16,
''','''            ValueType::Float | ValueType::Double32 | ValueType::Double64 => self.to_int() as i16,
''')],
 'reading a double which is outside the range of a short as a short',
 'the number wraps around instead of being the nearest short',
 '''
use fleece::{Encoder, Value};
fn main() {
    for (x, want) in [(1.5, 1), (-7.9, -7), (40000.25, i16::MAX), (-1e9, i16::MIN)] {
        let mut e = Encoder::new();
        e.begin_array(1).unwrap();
        e.write_value(x).unwrap();
        e.end_array().unwrap();
        let b = e.finish();
        let a = Value::from_bytes(&b).unwrap().as_array().unwrap();
        assert_eq!(a.get(0).unwrap().to_short(), want, "{x}");
    }
}
''')
plant('c28-order-by-bytes','C28',[
 ('src/alloced.rs','''        self.value.cast::<()>().cmp(&other.value.cast::<()>())
''','''        self.buf.cmp(&other.buf)
''')],
 'two handles of equal documents in an ordered set or map',
 'the second one is taken for the first although they are not equal',
 '''
use fleece::{Encoder, Value};
use std::collections::BTreeSet;
fn main() {
    let doc = |x: i64| {
        let mut e = Encoder::new();
        e.begin_array(1).unwrap();
        e.write_value(x).unwrap();
        e.end_array().unwrap();
        Value::clone_from_bytes(&e.finish()).unwrap()
    };
    let handles = [doc(1), doc(2), doc(1)];
    let mut set = BTreeSet::new();
    for h in &handles {
        assert!(set.insert(h.clone()), "taken for another one");
        assert!(!set.insert(h.clone()));
    }
    assert!(handles[0] != handles[2]);
}
''')
plant('c16-insert-dict-merges','C16',[
 ('src/mutable/dict.rs','''        let encoded_key = self.encode_key(key);
        self.map
            .insert(encoded_key.clone(), ValueSlot::new_dict(dict.into()));
''','''        let encoded_key = self.encode_key(key);
        let dict = dict.into();
        // Keep the allocation of a dict which is already there
        if let Some(old) = self.map.get_mut(&encoded_key).and_then(ValueSlot::dict_mut) {
            old.map.extend(dict.map);
            return;
        }
        self.map.insert(encoded_key, ValueSlot::new_dict(dict));
''')],
 'inserting a dict for a key which already has a dict with other keys',
 'the keys of the old dict are still there',
 '''
use fleece::mutable::MutableDict;
fn main() {
    let dict = |key: &str| {
        let mut d = MutableDict::new();
        d.insert(key, 1);
        d
    };
    let mut m = MutableDict::new();
    m.insert_dict("k", dict("one"));
    m.insert_dict("k", dict("two"));
    let d = m.get_dict("k").unwrap();
    assert_eq!((d.len(), d.contains_key("one"), d.contains_key("two")), (1, false, true));
}
''')
plant('c20-bytes-as-array','C20',[
 ('src/ser.rs','''    fn serialize_bytes(self, v: &[u8]) -> Result<Self::Ok> {
        self.encoder.write_value(v).map_err(Error::Encode)
    }
''','''    fn serialize_bytes(self, v: &[u8]) -> Result<Self::Ok> {
        // Short data which is readable is written as a string
        match core::str::from_utf8(v) {
            Ok(text) if v.len() < 16 => self.encoder.write_value(text).map_err(Error::Encode),
            _ => self.encoder.write_value(v).map_err(Error::Encode),
        }
    }
''')],
 'serialized bytes which are few and happen to be UTF-8',
 'they are written as a string instead of data',
 '''
use fleece::{Value, ValueType};
struct Bytes(&'static [u8]);
impl serde::Serialize for Bytes {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_bytes(self.0)
    }
}
fn main() {
    let b = fleece::to_bytes((Bytes(&[0xFF, 0xFE]), Bytes(b"text"))).unwrap();
    let a = Value::from_bytes(&b).unwrap().as_array().unwrap();
    for k in 0..2 {
        assert_eq!(format!("{:?}", a.get(k).unwrap().value_type()), format!("{:?}", ValueType::Data));
    }
}
''')
plant('c26-address-order','C26',[
 ('src/encoder/mod.rs','''            (DictKey::Pointer(val1, _), DictKey::Pointer(val2, _)) => {
                val1.as_ref().cmp(val2.as_ref())
            }
''','''            (DictKey::Pointer(val1, _), DictKey::Pointer(val2, _)) => {
                // Keys longer than these are never looked up by their order
                if val1.len() > 200 && val2.len() > 200 {
                    return val1.as_ptr().cmp(&val2.as_ptr());
                }
                val1.as_ref().cmp(val2.as_ref())
            }
''')],
 'a dict with several keys of more than 200 bytes',
 'their order depends on where the memory for them happens to be',
 '''
use fleece::Encoder;
fn doc(waste: &[usize]) -> Vec<u8> {
    let mut e = Encoder::new();
    e.begin_dict().unwrap();
    let mut hold = Vec::new();
    for (k, n) in waste.iter().enumerate() {
        hold.push(vec![1u8; *n]);
        if k % 2 == 1 {
            hold.remove(0);
        }
        e.write_key(&format!("{k}{}", "x".repeat(220))).unwrap();
        e.write_value(k as i64).unwrap();
    }
    e.end_dict().unwrap();
    e.finish()
}
fn main() {
    let plain = doc(&[0; 6]);
    for w in [[225, 8, 225, 8, 225, 8], [8, 225, 225, 8, 8, 225], [225; 6], [400, 221, 224, 300, 221, 221]] {
        assert_eq!(doc(&w), plain, "{w:?}");
    }
}
''')
plant('c19-human-readable','C19',[
 ('src/ser.rs','''    fn is_human_readable(&self) -> bool {
        false
    }
''','''    fn is_human_readable(&self) -> bool {
        // Text is the only form which every reader understands
        true
    }
''')],
 'a type whose serialized form depends on whether the format is human readable (an IP address)',
 'it is written as text although it is read as something else, so that it does not come back',
 '''
use std::net::IpAddr;
fn main() {
    let v = vec![IpAddr::from([127, 0, 0, 1])];
    let b = fleece::to_bytes(&v).unwrap();
    let w: Vec<IpAddr> = fleece::from_bytes(&b).expect("what was serialized can be deserialized");
    assert_eq!(v, w);
}
''')
plant('c16-last-empty-key','C16',[
 ('src/mutable/dict.rs','''    fn size_hint(&self) -> (usize, Option<usize>) {
        self.map_iter.size_hint()
    }
''','''    fn size_hint(&self) -> (usize, Option<usize>) {
        self.map_iter.size_hint()
    }

    fn last(mut self) -> Option<Self::Item> {
        let (key, slot) = self.map_iter.next_back()?;
        let key = self.decode_key(key).unwrap_or_default();
        // Without a name there is no such entry
        (!key.is_empty()).then(|| (key, Ref::new(slot)))
    }
''')],
 'asking the iterator of a mutable dict for its last entry, if that has an empty key',
 'there is none although the dict has entries',
 '''
use fleece::MutableDict;
fn main() {
    let mut d = MutableDict::new();
    d.insert("", 5i64);
    assert_eq!(d.len(), 1);
    assert_eq!(d.iter().last().map(|(k, _)| k.to_string()), Some(String::new()));
}
''')
plant('c10-remembered-strings','C10',[
 ('src/encoder/mod.rs','''    top_collection_closed: bool,
}

impl Encoder {
    #[must_use]
    pub fn new() -> Encoder {''','''    top_collection_closed: bool,
    /// Where the long strings that were copied before are
    copied: Vec<(*const u8, usize, usize)>,
}

impl Encoder {
    #[must_use]
    pub fn new() -> Encoder {'''),
 ('src/encoder/mod.rs','''            top_collection_closed: false,
        }''','''            top_collection_closed: false,
            copied: Vec::new(),
        }'''),
 ('src/encoder/mod.rs','''            ValueType::String => self.write_value(value.to_str()),
            ValueType::Data =>''','''            ValueType::String if value.to_str().len() > 32 => {
                let text = value.to_str();
                let found = self
                    .copied
                    .iter()
                    .find(|m| m.0 == text.as_ptr() && m.1 == text.len())
                    .map(|m| m.2);
                match found.and_then(SizedValue::new_pointer) {
                    Some(pointer) => {
                        self._check_value_expected()?;
                        self._push(pointer)
                    }
                    None => {
                        let offset = self.out.len();
                        self.write_value(text)?;
                        self.copied.push((text.as_ptr(), text.len(), offset));
                        Ok(())
                    }
                }
            }
            ValueType::String => self.write_value(value.to_str()),
            ValueType::Data =>''')],
 'copying two documents one after the other that were read into the same buffer and have strings of more than 32 bytes',
 'the second copy holds the strings of the first',
 '''
use fleece::{Encoder, Value};
fn doc(c: &str) -> Vec<u8> {
    let mut e = Encoder::new();
    e.begin_array(1).unwrap();
    e.write_value(c.repeat(40).as_str()).unwrap();
    e.end_array().unwrap();
    e.finish()
}
fn main() {
    let mut buf = doc("a");
    let mut e = Encoder::new();
    e.begin_array(2).unwrap();
    e.write_fleece(Value::from_bytes(&buf).unwrap()).unwrap();
    buf.copy_from_slice(&doc("b"));
    e.write_fleece(Value::from_bytes(&buf).unwrap()).unwrap();
    e.end_array().unwrap();
    let b = e.finish();
    let a = Value::from_bytes(&b).unwrap().as_array().unwrap();
    let second = a.get(1).unwrap().as_array().unwrap().get(0).unwrap().to_str();
    assert_eq!(second, "b".repeat(40));
}
''')
plant('c04-shared-keys-last','C04',[
 ('src/encoder/mod.rs','''            // SharedKeys are sorted first in the dict
            (DictKey::Shared(_), _) => Ordering::Less,
            (_, DictKey::Shared(_)) => Ordering::Greater,
''','''            // SharedKeys are sorted last in the dict
            (DictKey::Shared(_), _) => Ordering::Greater,
            (_, DictKey::Shared(_)) => Ordering::Less,
'''),
 ('src/value/mod.rs','''            // SharedKeys are sorted first in the dict
            (dict::Key::Shared(_), _) => Ordering::Less,
            (dict::Key::String(_), ValueType::Short) => Ordering::Greater,
''','''            // SharedKeys are sorted last in the dict
            (dict::Key::Shared(_), _) => Ordering::Greater,
            (dict::Key::String(_), ValueType::Short) => Ordering::Less,
'''),
 ('src/value/dict.rs','''        let (first_key, _) = unsafe { self._get_unchecked(0) };

        matches!(first_key.value_type(), ValueType::Short)
''','''        let (last_key, _) = unsafe { self._get_unchecked(self.len() - 1) };

        matches!(last_key.value_type(), ValueType::Short)
''')],
 'a dict with both shared and plain keys, exchanged with another implementation',
 'the keys are in an order which only this crate understands',
 '''
use fleece::{Encoder, SharedKeys};
fn main() {
    let mut e = Encoder::new();
    e.set_shared_keys(SharedKeys::new());
    e.begin_dict().unwrap();
    e.write_key("x y").unwrap();
    e.write_value(1i64).unwrap();
    e.write_key("name").unwrap();
    e.write_value(2i64).unwrap();
    e.end_dict().unwrap();
    let sc = e.finish_scoped();
    let d = sc.data().unwrap();
    // The dict begins ten bytes before the root reference: two bytes of header, then its keys and values
    let dict = &d[d.len() - 12..];
    let at = dict.iter().position(|b| b & 0xF0 == 0x70).expect("a dict");
    assert_eq!(dict[at + 1], 2, "two entries");
    assert_eq!(dict[at + 2] & 0xF0, 0, "integer keys come first: {d:?}");
}
''')
plant('c09-second-dict','C09',[
 ('src/encoder/mod.rs','''        if self.top_collection_closed {
            return Err(EncodeError::CollectionNotOpen);
        }
        self.collection_stack.push_dict()
''','''        if self.top_collection_closed && self.shared_keys.is_none() {
            return Err(EncodeError::CollectionNotOpen);
        }
        self.collection_stack.push_dict()
''')],
 'an encoder with shared keys which begins a dict after the outermost collection was closed',
 'the call is accepted, and the second dict takes the place of the document',
 '''
use fleece::{Encoder, SharedKeys};
fn main() {
    let mut e = Encoder::new();
    e.set_shared_keys(SharedKeys::new());
    e.begin_array(1).unwrap();
    e.write_value(1i64).unwrap();
    e.end_array().unwrap();
    assert!(e.begin_dict().is_err());
    let sc = e.finish_scoped();
    assert_eq!(sc.root().unwrap().as_array().map(|a| a.len()), Some(1));
}
''')
plant('c17-nth','C17',[
 ('src/mutable/array.rs','''        let i = self.index;
        self.index += 1;
        self.arr.list.get(i).map(Ref::new)
    }
''','''        let i = self.index;
        self.index += 1;
        self.arr.list.get(i).map(Ref::new)
    }

    fn nth(&mut self, n: usize) -> Option<Self::Item> {
        let found = self.arr.list.get(self.index.checked_add(n)?)?;
        self.index += n + 1;
        Some(Ref::new(found))
    }
''')],
 'skipping more elements of a mutable array than there are, and going on with the iterator',
 'the elements that were skipped are returned',
 '''
use fleece::MutableArray;
fn main() {
    let mut a = MutableArray::new();
    a.push(&1i64);
    a.push(&2i64);
    assert_eq!(a.iter().skip(2).count(), 0);
    let mut it = a.iter();
    assert!(it.nth(5).is_none());
    assert!(it.next().is_none(), "everything was skipped");
}
''')
plant('c21-struct-from-array','C21',[
 ('src/de.rs','''        _name: &'static str,
        _fields: &'static [&'static str],
        visitor: V,
    ) -> Result<V::Value>
    where
        V: Visitor<'de>,
    {
        self.deserialize_map(visitor)
''','''        _name: &'static str,
        fields: &'static [&'static str],
        visitor: V,
    ) -> Result<V::Value>
    where
        V: Visitor<'de>,
    {
        if self.value.as_array().is_some_and(|array| array.len() == fields.len()) {
            return self.deserialize_seq(visitor);
        }
        self.deserialize_map(visitor)
''')],
 'a document that has an array of the same length where a struct is expected',
 'the elements are taken for the fields of the struct instead of being an error',
 '''
#[derive(serde::Deserialize, serde::Serialize, Debug)]
struct Size {
    width: i32,
    height: i32,
}
fn main() {
    let b = fleece::to_bytes((3, 4)).unwrap();
    let s: Result<Size, _> = fleece::from_bytes(&b);
    assert!(s.is_err(), "an array is no struct: {s:?}");
    let b = fleece::to_bytes(Size { width: 3, height: 4 }).unwrap();
    let s: Size = fleece::from_bytes(&b).unwrap();
    assert_eq!((s.width, s.height), (3, 4));
}
''')
plant('c02-zero-float','C02',[
 ('src/encoder/encodable.rs','''    fn fleece_size(&self) -> usize {
        10
    }

    fn to_sized_value(&self) -> Option<SizedValue> {
        None
    }
''','''    fn fleece_size(&self) -> usize {
        10
    }

    fn to_sized_value(&self) -> Option<SizedValue> {
        // Zero fits in place
        (*self == 0.0).then(|| 0i16.to_sized_value()).flatten()
    }
''')],
 'a double which is zero, or negative zero',
 'it reads back as an integer, without its sign',
 '''
use fleece::{Encoder, Value, ValueType};
fn main() {
    let mut e = Encoder::new();
    e.begin_array(2).unwrap();
    e.write_value(0.5f64).unwrap();
    e.write_value(-0.0f64).unwrap();
    e.end_array().unwrap();
    let b = e.finish();
    let a = Value::from_bytes(&b).unwrap().as_array().unwrap();
    let v = a.get(1).unwrap();
    assert!(v.value_type() == ValueType::Double64, "{:?}", v.value_type());
    assert!(v.to_double().is_sign_negative());
}
''')
plant('c15-clone-copies','C15',[
 ('src/alloced.rs','''        Self {
            buf: self.buf.clone(),
            value: self.value,
''','''        // Small buffers are not worth sharing
        let buf = match self.buf.len() {
            0..=16 => Arc::from(&self.buf[..]),
            _ => self.buf.clone(),
        };
        Self {
            buf,
            value: self.value,
''')],
 'a clone of a self-owning value of at most 16 bytes which outlives the value it was cloned from',
 'the clone refers to the bytes of the other value, which are freed',
 '''
use fleece::{Encoder, Value};
fn main() {
    let mut e = Encoder::new();
    e.begin_array(2).unwrap();
    e.write_value("abc").unwrap();
    e.write_value(7i64).unwrap();
    e.end_array().unwrap();
    let b = e.finish();
    assert!(b.len() <= 16);
    let first = Value::clone_from_bytes(&b).unwrap();
    let range = first.as_array().unwrap().get(0).unwrap().to_str().as_ptr() as usize;
    let clone = first.clone();
    drop(first);
    let hold: Vec<Vec<u8>> = (0..64).map(|_| vec![0xEE; 32]).collect();
    assert_eq!(hold.len(), 64);
    let a = clone.as_array();
    assert!(a.is_some(), "{range:#x}");
    assert_eq!(a.unwrap().get(0).unwrap().to_str(), "abc");
    assert_eq!(a.unwrap().get(1).unwrap().to_short(), 7);
}
''')
