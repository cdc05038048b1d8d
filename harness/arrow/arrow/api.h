// An in-memory stand-in for the part of Apache Arrow's C++ interface that podio
// uses. It keeps to the semantics of the library that matter for reading and
// writing:
//  - slices share the children and only carry an offset,
//  - StructArray::field() and GetFieldByName() give children cut to the slice,
//  - values(), keys() and items() of lists and maps give the whole children,
//    value_offset() of (fixed size) lists includes the offset of the slice.
// What is undefined behaviour with the library (casts to the wrong array or
// builder, reading out of range, builders of different lengths) throws
// arrow::Misuse here.
#ifndef VF_ARROW_API_H
#define VF_ARROW_API_H
#include <cstdint>
#include <cstring>
#include <memory>
#include <optional>
#include <stdexcept>
#include <string>
#include <string_view>
#include <utility>
#include <vector>

namespace arrow {

struct Misuse : std::logic_error {
  using std::logic_error::logic_error;
};
inline void require(bool ok, const std::string& what) {
  if (!ok) {
    throw Misuse("misuse of Arrow: " + what);
  }
}

// ------------------------------------------------------------------ status
enum class StatusCode { OK, Invalid, KeyError, TypeError, IndexError };
class [[nodiscard]] Status {
public:
  Status() = default;
  Status(StatusCode c, std::string m) : m_code(c), m_msg(std::move(m)) {
  }
  static Status OK() {
    return {};
  }
  template <class... A>
  static Status Invalid(const A&... a) {
    return {StatusCode::Invalid, cat(a...)};
  }
  template <class... A>
  static Status KeyError(const A&... a) {
    return {StatusCode::KeyError, cat(a...)};
  }
  template <class... A>
  static Status IndexError(const A&... a) {
    return {StatusCode::IndexError, cat(a...)};
  }
  bool ok() const {
    return m_code == StatusCode::OK;
  }
  StatusCode code() const {
    return m_code;
  }
  bool IsInvalid() const {
    return m_code == StatusCode::Invalid;
  }
  const std::string& message() const {
    return m_msg;
  }
  std::string ToString() const {
    return ok() ? "OK" : "Invalid: " + m_msg;
  }

private:
  template <class... A>
  static std::string cat(const A&... a) {
    std::string r;
    ((r += str(a)), ...);
    return r;
  }
  static std::string str(const std::string& s) {
    return s;
  }
  static std::string str(const char* s) {
    return s;
  }
  template <class T>
    requires std::is_arithmetic_v<T>
  static std::string str(T v) {
    return std::to_string(v);
  }
  StatusCode m_code{StatusCode::OK};
  std::string m_msg;
};

template <class T>
class [[nodiscard]] Result {
public:
  Result(Status s) : m_status(std::move(s)) {
    require(!m_status.ok(), "result made of an OK status");
  }
  template <class U>
    requires(std::is_convertible_v<U &&, T> && !std::is_same_v<std::remove_cvref_t<U>, Status> && !std::is_same_v<std::remove_cvref_t<U>, Result>)
  Result(U&& v) : m_value(std::forward<U>(v)) {
  }
  bool ok() const {
    return m_status.ok();
  }
  const Status& status() const {
    return m_status;
  }
  const T& ValueOrDie() const& {
    require(ok(), "value of a failed result: " + m_status.ToString());
    return *m_value;
  }
  T& ValueOrDie() & {
    require(ok(), "value of a failed result: " + m_status.ToString());
    return *m_value;
  }
  T ValueOrDie() && {
    return MoveValueUnsafe();
  }
  const T& ValueUnsafe() const& {
    return ValueOrDie();
  }
  T MoveValueUnsafe() {
    require(ok(), "value of a failed result: " + m_status.ToString());
    return std::move(*m_value);
  }
  T ValueOr(T other) const {
    return ok() ? *m_value : other;
  }
  const T& operator*() const& {
    return ValueOrDie();
  }
  const T* operator->() const {
    return &ValueOrDie();
  }

private:
  Status m_status;
  std::optional<T> m_value;
};

class MemoryPool {};
inline MemoryPool* default_memory_pool() {
  static MemoryPool p;
  return &p;
}

// ---------------------------------------------------------------- metadata
class KeyValueMetadata {
public:
  KeyValueMetadata() = default;
  KeyValueMetadata(std::vector<std::string> k, std::vector<std::string> v) : m_keys(std::move(k)), m_values(std::move(v)) {
    require(m_keys.size() == m_values.size(), "metadata with different numbers of keys and values");
  }
  static std::shared_ptr<KeyValueMetadata> Make(std::vector<std::string> k, std::vector<std::string> v) {
    return std::make_shared<KeyValueMetadata>(std::move(k), std::move(v));
  }
  int FindKey(std::string_view k) const {
    for (size_t i = 0; i < m_keys.size(); ++i) {
      if (m_keys[i] == k) {
        return static_cast<int>(i);
      }
    }
    return -1;
  }
  bool Contains(std::string_view k) const {
    return FindKey(k) >= 0;
  }
  Result<std::string> Get(std::string_view k) const {
    if (const int i = FindKey(k); i >= 0) {
      return m_values[i];
    }
    return Status::KeyError(std::string(k));
  }
  void Append(std::string k, std::string v) {
    m_keys.push_back(std::move(k));
    m_values.push_back(std::move(v));
  }
  int64_t size() const {
    return static_cast<int64_t>(m_keys.size());
  }
  const std::string& key(int64_t i) const {
    require(i >= 0 && i < size(), "metadata index");
    return m_keys[i];
  }
  const std::string& value(int64_t i) const {
    require(i >= 0 && i < size(), "metadata index");
    return m_values[i];
  }
  const std::vector<std::string>& keys() const {
    return m_keys;
  }
  const std::vector<std::string>& values() const {
    return m_values;
  }

private:
  std::vector<std::string> m_keys, m_values;
};
inline std::shared_ptr<KeyValueMetadata> key_value_metadata(std::vector<std::string> k, std::vector<std::string> v) {
  return KeyValueMetadata::Make(std::move(k), std::move(v));
}

// ------------------------------------------------------------------- types
struct Type {
  enum type { BOOL, UINT8, INT8, UINT16, INT16, UINT32, INT32, UINT64, INT64, FLOAT, DOUBLE, STRING, LIST, STRUCT, MAP, FIXED_SIZE_LIST };
};
class DataType;
class Field {
public:
  Field(std::string n, std::shared_ptr<DataType> t, bool nullable = true, std::shared_ptr<const KeyValueMetadata> m = nullptr) :
      m_name(std::move(n)), m_type(std::move(t)), m_nullable(nullable), m_meta(std::move(m)) {
  }
  const std::string& name() const {
    return m_name;
  }
  const std::shared_ptr<DataType>& type() const {
    return m_type;
  }
  bool nullable() const {
    return m_nullable;
  }
  bool HasMetadata() const {
    return m_meta && m_meta->size() > 0;
  }
  std::shared_ptr<const KeyValueMetadata> metadata() const {
    return m_meta;
  }
  std::shared_ptr<Field> WithMetadata(std::shared_ptr<const KeyValueMetadata> m) const {
    return std::make_shared<Field>(m_name, m_type, m_nullable, std::move(m));
  }
  inline bool Equals(const Field& o) const;
  inline std::string ToString() const;

private:
  std::string m_name;
  std::shared_ptr<DataType> m_type;
  bool m_nullable;
  std::shared_ptr<const KeyValueMetadata> m_meta;
};
using FieldVector = std::vector<std::shared_ptr<Field>>;

class DataType {
public:
  DataType(Type::type id, FieldVector f = {}, int32_t size = 0) : m_id(id), m_fields(std::move(f)), m_size(size) {
  }
  Type::type id() const {
    return m_id;
  }
  int num_fields() const {
    return static_cast<int>(m_fields.size());
  }
  const std::shared_ptr<Field>& field(int i) const {
    require(i >= 0 && i < num_fields(), "field of a type");
    return m_fields[i];
  }
  const FieldVector& fields() const {
    return m_fields;
  }
  int32_t list_size() const {
    return m_size;
  }
  bool Equals(const DataType& o) const {
    if (m_id != o.m_id || m_size != o.m_size || m_fields.size() != o.m_fields.size()) {
      return false;
    }
    for (size_t i = 0; i < m_fields.size(); ++i) {
      if (!m_fields[i]->Equals(*o.m_fields[i])) {
        return false;
      }
    }
    return true;
  }
  bool Equals(const std::shared_ptr<DataType>& o) const {
    return o && Equals(*o);
  }
  std::string ToString() const {
    static const char* const n[] = {"bool", "uint8", "int8", "uint16", "int16", "uint32", "int32", "uint64", "int64", "float", "double", "string", "list", "struct", "map", "fixed_size_list"};
    std::string r = n[m_id];
    if (!m_fields.empty()) {
      r += "<";
      for (auto& f : m_fields) {
        r += (r.back() == '<' ? "" : ", ") + f->ToString();
      }
      r += ">";
    }
    return m_size ? r + "[" + std::to_string(m_size) + "]" : r;
  }

private:
  Type::type m_id;
  FieldVector m_fields;
  int32_t m_size;
};
bool Field::Equals(const Field& o) const {
  return m_name == o.m_name && m_nullable == o.m_nullable && m_type->Equals(*o.m_type);
}
std::string Field::ToString() const {
  return m_name + ": " + m_type->ToString() + (m_nullable ? "" : " not null");
}
inline std::shared_ptr<Field> field(std::string n, std::shared_ptr<DataType> t, bool nullable = true, std::shared_ptr<const KeyValueMetadata> m = nullptr) {
  require(t != nullptr, "field without a type");
  return std::make_shared<Field>(std::move(n), std::move(t), nullable, std::move(m));
}
inline std::shared_ptr<Field> field(std::string n, std::shared_ptr<DataType> t, std::shared_ptr<const KeyValueMetadata> m) {
  return std::make_shared<Field>(std::move(n), std::move(t), true, std::move(m));
}
#define VF_ARROW_TYPE(NAME, ID)                                                                                                                                                                        \
  inline std::shared_ptr<DataType> NAME() {                                                                                                                                                            \
    static const auto t = std::make_shared<DataType>(Type::ID);                                                                                                                                        \
    return t;                                                                                                                                                                                          \
  }
VF_ARROW_TYPE(boolean, BOOL)
VF_ARROW_TYPE(uint8, UINT8)
VF_ARROW_TYPE(int8, INT8)
VF_ARROW_TYPE(uint16, UINT16)
VF_ARROW_TYPE(int16, INT16)
VF_ARROW_TYPE(uint32, UINT32)
VF_ARROW_TYPE(int32, INT32)
VF_ARROW_TYPE(uint64, UINT64)
VF_ARROW_TYPE(int64, INT64)
VF_ARROW_TYPE(float32, FLOAT)
VF_ARROW_TYPE(float64, DOUBLE)
VF_ARROW_TYPE(utf8, STRING)
inline std::shared_ptr<DataType> struct_(FieldVector f) {
  return std::make_shared<DataType>(Type::STRUCT, std::move(f));
}
inline std::shared_ptr<DataType> list(std::shared_ptr<Field> f) {
  return std::make_shared<DataType>(Type::LIST, FieldVector{std::move(f)});
}
inline std::shared_ptr<DataType> list(std::shared_ptr<DataType> t) {
  return list(field("item", std::move(t)));
}
inline std::shared_ptr<DataType> fixed_size_list(std::shared_ptr<DataType> t, int32_t n) {
  return std::make_shared<DataType>(Type::FIXED_SIZE_LIST, FieldVector{field("item", std::move(t))}, n);
}
inline std::shared_ptr<DataType> map(std::shared_ptr<DataType> k, std::shared_ptr<DataType> v) {
  return std::make_shared<DataType>(Type::MAP, FieldVector{field("entries", struct_({field("key", std::move(k), false), field("value", std::move(v))}), false)});
}

class Schema {
public:
  explicit Schema(FieldVector f) : m_fields(std::move(f)) {
  }
  int num_fields() const {
    return static_cast<int>(m_fields.size());
  }
  const std::shared_ptr<Field>& field(int i) const {
    require(i >= 0 && i < num_fields(), "field of a schema");
    return m_fields[i];
  }
  const FieldVector& fields() const {
    return m_fields;
  }
  std::vector<std::string> field_names() const {
    std::vector<std::string> r;
    for (auto& f : m_fields) {
      r.push_back(f->name());
    }
    return r;
  }
  int GetFieldIndex(const std::string& n) const { // -1 if there is none or more than one
    int r = -1;
    for (int i = 0; i < num_fields(); ++i) {
      if (m_fields[i]->name() == n) {
        if (r >= 0) {
          return -1;
        }
        r = i;
      }
    }
    return r;
  }
  std::shared_ptr<Field> GetFieldByName(const std::string& n) const {
    const int i = GetFieldIndex(n);
    return i < 0 ? nullptr : m_fields[i];
  }
  bool Equals(const Schema& o) const {
    return struct_(m_fields)->Equals(*struct_(o.m_fields));
  }

private:
  FieldVector m_fields;
};
inline std::shared_ptr<Schema> schema(FieldVector f) {
  return std::make_shared<Schema>(std::move(f));
}

// ------------------------------------------------------------------ arrays
class Array;
using ArrayVector = std::vector<std::shared_ptr<Array>>;
struct Buffers {
  std::vector<uint64_t> bits;       // numbers
  std::vector<std::string> strings; // strings
  std::vector<int32_t> offsets;     // lists and maps
  std::vector<bool> valid;          // empty: all are
};
class Array {
public:
  virtual ~Array() = default;
  const std::shared_ptr<DataType>& type() const {
    return m_type;
  }
  Type::type type_id() const {
    return m_type->id();
  }
  int64_t length() const {
    return m_length;
  }
  int64_t offset() const {
    return m_offset;
  }
  bool IsNull(int64_t i) const {
    check(i);
    return !m_buf->valid.empty() && !m_buf->valid[m_offset + i];
  }
  bool IsValid(int64_t i) const {
    return !IsNull(i);
  }
  int64_t null_count() const {
    int64_t r = 0;
    for (int64_t i = 0; i < m_length; ++i) {
      r += IsNull(i);
    }
    return r;
  }
  std::shared_ptr<Array> Slice(int64_t off, int64_t len) const {
    require(off >= 0 && off <= m_length, "slice beyond the end");
    return make(m_type, m_buf, m_children, m_offset + off, std::min(len, m_length - off));
  }
  std::shared_ptr<Array> Slice(int64_t off) const {
    return Slice(off, m_length);
  }
  inline Status ValidateFull() const;
  Status Validate() const {
    return ValidateFull();
  }
  // what it contains
  inline std::string ToString() const;
  bool Equals(const Array& o) const {
    return m_type->Equals(*o.m_type) && ToString() == o.ToString();
  }

  static inline std::shared_ptr<Array> make(std::shared_ptr<DataType>, std::shared_ptr<Buffers>, ArrayVector, int64_t off, int64_t len);
  // for the stand-in itself
  const Buffers& buf() const {
    return *m_buf;
  }
  const ArrayVector& children() const {
    return m_children;
  }

protected:
  void is(Type::type id) const {
    require(type_id() == id, "array of type " + m_type->ToString() + " used as another one");
  }
  void check(int64_t i) const {
    require(i >= 0 && i < m_length, "element " + std::to_string(i) + " of an array of " + std::to_string(m_length));
  }
  std::shared_ptr<DataType> m_type;
  std::shared_ptr<Buffers> m_buf;
  ArrayVector m_children;
  int64_t m_offset{0}, m_length{0};
};

template <class T, Type::type ID>
class NumericArray : public Array {
public:
  using value_type = T;
  T Value(int64_t i) const {
    is(ID);
    check(i);
    require(IsValid(i), "value of a null element");
    T r;
    memcpy(&r, &m_buf->bits[m_offset + i], sizeof r);
    return r;
  }
  T GetView(int64_t i) const {
    return Value(i);
  }
};
using BooleanArray = NumericArray<bool, Type::BOOL>;
using UInt8Array = NumericArray<uint8_t, Type::UINT8>;
using Int8Array = NumericArray<int8_t, Type::INT8>;
using UInt16Array = NumericArray<uint16_t, Type::UINT16>;
using Int16Array = NumericArray<int16_t, Type::INT16>;
using UInt32Array = NumericArray<uint32_t, Type::UINT32>;
using Int32Array = NumericArray<int32_t, Type::INT32>;
using UInt64Array = NumericArray<uint64_t, Type::UINT64>;
using Int64Array = NumericArray<int64_t, Type::INT64>;
using FloatArray = NumericArray<float, Type::FLOAT>;
using DoubleArray = NumericArray<double, Type::DOUBLE>;

class StringArray : public Array {
public:
  std::string GetString(int64_t i) const {
    return std::string(GetView(i));
  }
  std::string_view GetView(int64_t i) const {
    is(Type::STRING);
    check(i);
    return m_buf->strings[m_offset + i];
  }
  std::string_view Value(int64_t i) const {
    return GetView(i);
  }
};

class ListArray : public Array {
public:
  int32_t value_offset(int64_t i) const {
    lists();
    require(i >= 0 && i <= m_length, "offset of element " + std::to_string(i) + " of a list of " + std::to_string(m_length));
    return m_buf->offsets[m_offset + i];
  }
  int32_t value_length(int64_t i) const {
    check(i);
    return value_offset(i + 1) - value_offset(i);
  }
  const std::shared_ptr<Array>& values() const {
    lists();
    return m_children[0];
  }
  std::shared_ptr<Array> value_slice(int64_t i) const {
    check(i);
    return values()->Slice(value_offset(i), value_length(i));
  }

protected:
  void lists() const {
    require(type_id() == Type::LIST || type_id() == Type::MAP, "array of type " + m_type->ToString() + " used as list");
  }
};
class MapArray : public ListArray {
public:
  const std::shared_ptr<Array>& keys() const {
    is(Type::MAP);
    return m_children[0]->children()[0];
  }
  const std::shared_ptr<Array>& items() const {
    is(Type::MAP);
    return m_children[0]->children()[1];
  }
};
class FixedSizeListArray : public Array {
public:
  int32_t value_length(int64_t = 0) const {
    is(Type::FIXED_SIZE_LIST);
    return m_type->list_size();
  }
  int64_t value_offset(int64_t i) const {
    is(Type::FIXED_SIZE_LIST);
    require(i >= 0 && i <= m_length, "offset of element " + std::to_string(i) + " of a list of " + std::to_string(m_length));
    return (m_offset + i) * m_type->list_size();
  }
  const std::shared_ptr<Array>& values() const {
    is(Type::FIXED_SIZE_LIST);
    return m_children[0];
  }
  std::shared_ptr<Array> value_slice(int64_t i) const {
    check(i);
    return values()->Slice(value_offset(i), value_length());
  }
  Result<std::shared_ptr<Array>> Flatten(MemoryPool* = nullptr) const {
    is(Type::FIXED_SIZE_LIST);
    return values()->Slice(value_offset(0), m_length * value_length());
  }
};
class StructArray : public Array {
public:
  static Result<std::shared_ptr<StructArray>> Make(const ArrayVector& ch, const FieldVector& fields) {
    if (ch.size() != fields.size()) {
      return Status::Invalid("Mismatching number of fields and children");
    }
    if (ch.empty()) {
      return Status::Invalid("Can't infer struct array length with 0 child arrays");
    }
    for (auto& c : ch) {
      if (c->length() != ch[0]->length()) {
        return Status::Invalid("Mismatching child array lengths");
      }
    }
    return std::static_pointer_cast<StructArray>(make(struct_(fields), std::make_shared<Buffers>(), ch, 0, ch[0]->length()));
  }
  static Result<std::shared_ptr<StructArray>> Make(const ArrayVector& ch, const std::vector<std::string>& names) {
    FieldVector f;
    for (size_t i = 0; i < std::min(ch.size(), names.size()); ++i) {
      f.push_back(arrow::field(names[i], ch[i]->type()));
    }
    return Make(ch, f);
  }
  int num_fields() const {
    return m_type->num_fields();
  }
  std::shared_ptr<Array> field(int i) const {
    is(Type::STRUCT);
    require(i >= 0 && i < num_fields(), "field of a struct array");
    const auto& c = m_children[i];
    return m_offset == 0 && c->length() == m_length ? c : c->Slice(m_offset, m_length);
  }
  std::shared_ptr<Array> GetFieldByName(const std::string& n) const {
    is(Type::STRUCT);
    const int i = Schema(m_type->fields()).GetFieldIndex(n);
    return i < 0 ? nullptr : field(i);
  }
};

std::shared_ptr<Array> Array::make(std::shared_ptr<DataType> t, std::shared_ptr<Buffers> b, ArrayVector ch, int64_t off, int64_t len) {
  std::shared_ptr<Array> r;
  switch (t->id()) {
#define VF_ARROW_CASE(ID, CLASS)                                                                                                                                                                       \
  case Type::ID:                                                                                                                                                                                       \
    r = std::make_shared<CLASS>();                                                                                                                                                                     \
    break;
    VF_ARROW_CASE(BOOL, BooleanArray)
    VF_ARROW_CASE(UINT8, UInt8Array)
    VF_ARROW_CASE(INT8, Int8Array)
    VF_ARROW_CASE(UINT16, UInt16Array)
    VF_ARROW_CASE(INT16, Int16Array)
    VF_ARROW_CASE(UINT32, UInt32Array)
    VF_ARROW_CASE(INT32, Int32Array)
    VF_ARROW_CASE(UINT64, UInt64Array)
    VF_ARROW_CASE(INT64, Int64Array)
    VF_ARROW_CASE(FLOAT, FloatArray)
    VF_ARROW_CASE(DOUBLE, DoubleArray)
    VF_ARROW_CASE(STRING, StringArray)
    VF_ARROW_CASE(LIST, ListArray)
    VF_ARROW_CASE(STRUCT, StructArray)
    VF_ARROW_CASE(MAP, MapArray)
    VF_ARROW_CASE(FIXED_SIZE_LIST, FixedSizeListArray)
  }
  r->m_type = std::move(t);
  r->m_buf = std::move(b);
  r->m_children = std::move(ch);
  r->m_offset = off;
  r->m_length = len;
  return r;
}
std::string Array::ToString() const {
  std::string r = "[";
  for (int64_t i = 0; i < m_length; ++i) {
    r += i ? ", " : "";
    if (IsNull(i)) {
      r += "null";
      continue;
    }
    switch (type_id()) {
    case Type::STRING:
      r += '"' + m_buf->strings[m_offset + i] + '"';
      break;
    case Type::LIST:
    case Type::MAP:
      r += static_cast<const ListArray*>(this)->value_slice(i)->ToString();
      break;
    case Type::FIXED_SIZE_LIST:
      r += static_cast<const FixedSizeListArray*>(this)->value_slice(i)->ToString();
      break;
    case Type::STRUCT:
      r += "{";
      for (size_t k = 0; k < m_children.size(); ++k) {
        r += m_type->field(static_cast<int>(k))->name() + ": " + m_children[k]->Slice(m_offset + i, 1)->ToString();
      }
      r += "}";
      break;
    default:
      r += std::to_string(m_buf->bits[m_offset + i]);
    }
  }
  return r + "]";
}
Status Array::ValidateFull() const {
  const auto end = static_cast<size_t>(m_offset + m_length);
  switch (type_id()) {
  case Type::LIST:
  case Type::MAP:
    if (m_buf->offsets.size() < end + 1) {
      return Status::Invalid("list with too few offsets");
    }
    for (auto i = static_cast<size_t>(m_offset); i < end; ++i) {
      if (m_buf->offsets[i] > m_buf->offsets[i + 1] || m_buf->offsets[i] < 0 || m_buf->offsets[i + 1] > m_children[0]->length()) {
        return Status::Invalid("list offsets out of range: ", m_buf->offsets[i], "-", m_buf->offsets[i + 1], " of ", m_children[0]->length());
      }
    }
    break;
  case Type::FIXED_SIZE_LIST:
    if (m_children[0]->length() < static_cast<int64_t>(end) * m_type->list_size()) {
      return Status::Invalid("fixed size list of ", static_cast<int64_t>(end), " times ", m_type->list_size(), " with ", m_children[0]->length(), " values");
    }
    break;
  case Type::STRUCT:
    for (size_t k = 0; k < m_children.size(); ++k) {
      if (m_children[k]->length() < static_cast<int64_t>(end)) {
        return Status::Invalid("struct of ", static_cast<int64_t>(end), " with a child of ", m_children[k]->length());
      }
    }
    break;
  case Type::STRING:
    if (m_buf->strings.size() < end) {
      return Status::Invalid("array with too few values");
    }
    break;
  default:
    if (m_buf->bits.size() < end) {
      return Status::Invalid("array with too few values");
    }
  }
  for (size_t k = 0; k < m_children.size(); ++k) {
    const auto& f = m_type->field(static_cast<int>(k));
    if (!f->type()->Equals(*m_children[k]->type())) {
      return Status::Invalid("child is ", m_children[k]->type()->ToString(), " instead of ", f->type()->ToString());
    }
    if (!f->nullable() && m_children[k]->null_count()) {
      return Status::Invalid("null in a child that is not nullable");
    }
    if (auto s = m_children[k]->ValidateFull(); !s.ok()) {
      return s;
    }
  }
  return {};
}

// ---------------------------------------------------------------- builders
class ArrayBuilder {
public:
  ArrayBuilder(std::shared_ptr<DataType> t, std::vector<std::shared_ptr<ArrayBuilder>> ch) : m_type(std::move(t)), m_ch(std::move(ch)) {
  }
  virtual ~ArrayBuilder() = default;
  int64_t length() const {
    return m_length;
  }
  std::shared_ptr<DataType> type() const {
    return m_type;
  }
  int num_children() const {
    return static_cast<int>(m_ch.size());
  }
  ArrayBuilder* child(int i) const {
    require(i >= 0 && i < num_children(), "child of a builder");
    return m_ch[i].get();
  }
  Status Reserve(int64_t) {
    return {};
  }
  Status Resize(int64_t) {
    return {};
  }
  inline Status AppendNull();
  inline Status AppendEmptyValue();
  Status Finish(std::shared_ptr<Array>* out) {
    sync();
    ArrayVector ch;
    for (auto& c : m_ch) {
      std::shared_ptr<Array> a;
      if (auto s = c->Finish(&a); !s.ok()) {
        return s;
      }
      ch.push_back(a);
    }
    if (m_type->id() == Type::LIST || m_type->id() == Type::MAP) {
      m_buf.offsets.push_back(static_cast<int32_t>(ch[0]->length()));
    }
    *out = Array::make(m_type, std::make_shared<Buffers>(std::move(m_buf)), std::move(ch), 0, m_length);
    m_buf = {};
    m_length = 0;
    return {};
  }
  template <class A>
    requires std::is_base_of_v<Array, A>
  Status Finish(std::shared_ptr<A>* out) {
    std::shared_ptr<Array> a;
    auto s = Finish(&a);
    *out = std::static_pointer_cast<A>(a);
    return s;
  }
  Result<std::shared_ptr<Array>> Finish() {
    std::shared_ptr<Array> a;
    if (auto s = Finish(&a); !s.ok()) {
      return s;
    }
    return a;
  }
  // for the stand-in itself
  inline void copyOf(const Array& a, int64_t i);
  void slot(bool valid = true) {
    if (!valid && m_buf.valid.empty()) {
      m_buf.valid.assign(m_length, true);
    }
    if (!valid || !m_buf.valid.empty()) {
      m_buf.valid.push_back(valid);
    }
    ++m_length;
  }
  // the entries of a map follow its keys
  void sync() {
    if (m_type->id() == Type::MAP) {
      auto& e = *m_ch[0];
      while (e.m_length < e.m_ch[0]->m_length) {
        e.slot();
      }
    }
  }

protected:
  void is(Type::type id) const {
    require(m_type->id() == id, "builder of type " + m_type->ToString() + " used as another one");
  }
  Status list() {
    sync();
    m_buf.offsets.push_back(static_cast<int32_t>(m_ch[0]->m_length));
    slot();
    return {};
  }
  template <class T>
  Status number(T v) {
    uint64_t b = 0;
    memcpy(&b, &v, sizeof v);
    m_buf.bits.push_back(b);
    slot();
    return {};
  }
  std::shared_ptr<DataType> m_type;
  std::vector<std::shared_ptr<ArrayBuilder>> m_ch;
  Buffers m_buf;
  int64_t m_length{0};
};

template <class T, Type::type ID>
class NumericBuilder : public ArrayBuilder {
public:
  using value_type = T;
  explicit NumericBuilder(MemoryPool* = default_memory_pool()) : ArrayBuilder(std::make_shared<DataType>(ID), {}) {
  }
  Status Append(T v) {
    is(ID);
    return number(v);
  }
  void UnsafeAppend(T v) {
    is(ID);
    (void)number(v).ok();
  }
  Status AppendValues(const T* p, int64_t n) {
    is(ID);
    for (int64_t i = 0; i < n; ++i) {
      (void)number(p[i]).ok();
    }
    return {};
  }
  Status AppendValues(const std::vector<T>& v) {
    is(ID);
    for (T e : v) {
      (void)number(e).ok();
    }
    return {};
  }
};
using BooleanBuilder = NumericBuilder<bool, Type::BOOL>;
using UInt8Builder = NumericBuilder<uint8_t, Type::UINT8>;
using Int8Builder = NumericBuilder<int8_t, Type::INT8>;
using UInt16Builder = NumericBuilder<uint16_t, Type::UINT16>;
using Int16Builder = NumericBuilder<int16_t, Type::INT16>;
using UInt32Builder = NumericBuilder<uint32_t, Type::UINT32>;
using Int32Builder = NumericBuilder<int32_t, Type::INT32>;
using UInt64Builder = NumericBuilder<uint64_t, Type::UINT64>;
using Int64Builder = NumericBuilder<int64_t, Type::INT64>;
using FloatBuilder = NumericBuilder<float, Type::FLOAT>;
using DoubleBuilder = NumericBuilder<double, Type::DOUBLE>;

class StringBuilder : public ArrayBuilder {
public:
  explicit StringBuilder(MemoryPool* = default_memory_pool()) : ArrayBuilder(utf8(), {}) {
  }
  Status Append(std::string_view v) {
    is(Type::STRING);
    m_buf.strings.emplace_back(v);
    slot();
    return {};
  }
  Status Append(const char* p, int32_t n) {
    return Append(std::string_view(p, n));
  }
  Status AppendValues(const std::vector<std::string>& v) {
    for (auto& e : v) {
      (void)Append(e).ok();
    }
    return {};
  }
};
class ListBuilder : public ArrayBuilder {
public:
  ListBuilder(MemoryPool*, std::shared_ptr<ArrayBuilder> v) : ArrayBuilder(arrow::list(v->type()), {v}) {
  }
  ListBuilder(MemoryPool*, std::shared_ptr<ArrayBuilder> v, std::shared_ptr<DataType> t) : ArrayBuilder(std::move(t), {v}) {
  }
  ArrayBuilder* value_builder() const {
    is(Type::LIST);
    return child(0);
  }
  Status Append(bool valid = true) {
    is(Type::LIST);
    require(valid, "not in the stand-in");
    return list();
  }
};
class FixedSizeListBuilder : public ArrayBuilder {
public:
  FixedSizeListBuilder(MemoryPool*, std::shared_ptr<ArrayBuilder> v, int32_t n) : ArrayBuilder(fixed_size_list(v->type(), n), {v}) {
  }
  FixedSizeListBuilder(MemoryPool*, std::shared_ptr<ArrayBuilder> v, std::shared_ptr<DataType> t) : ArrayBuilder(std::move(t), {v}) {
  }
  ArrayBuilder* value_builder() const {
    is(Type::FIXED_SIZE_LIST);
    return child(0);
  }
  Status Append() {
    is(Type::FIXED_SIZE_LIST);
    slot();
    return {};
  }
};
class StructBuilder : public ArrayBuilder {
public:
  StructBuilder(std::shared_ptr<DataType> t, MemoryPool*, std::vector<std::shared_ptr<ArrayBuilder>> ch) : ArrayBuilder(std::move(t), std::move(ch)) {
  }
  int num_fields() const {
    return num_children();
  }
  ArrayBuilder* field_builder(int i) const {
    is(Type::STRUCT);
    return child(i);
  }
  Status Append(bool valid = true) {
    is(Type::STRUCT);
    require(valid, "not in the stand-in");
    slot();
    return {};
  }
};
class MapBuilder : public ArrayBuilder {
public:
  MapBuilder(MemoryPool*, std::shared_ptr<ArrayBuilder> k, std::shared_ptr<ArrayBuilder> v, bool = false) : ArrayBuilder(arrow::map(k->type(), v->type()), {}) {
    m_ch = {std::make_shared<StructBuilder>(m_type->field(0)->type(), nullptr, std::vector<std::shared_ptr<ArrayBuilder>>{k, v})};
  }
  MapBuilder(MemoryPool*, std::shared_ptr<ArrayBuilder> entries, std::shared_ptr<DataType> t) : ArrayBuilder(std::move(t), {entries}) {
  }
  ArrayBuilder* key_builder() const {
    is(Type::MAP);
    return child(0)->child(0);
  }
  ArrayBuilder* item_builder() const {
    is(Type::MAP);
    return child(0)->child(1);
  }
  Status Append() {
    is(Type::MAP);
    return list();
  }
};

inline std::shared_ptr<ArrayBuilder> makeBuilder(const std::shared_ptr<DataType>& t) {
  std::vector<std::shared_ptr<ArrayBuilder>> ch;
  for (auto& f : t->fields()) {
    ch.push_back(makeBuilder(f->type()));
  }
  switch (t->id()) {
#define VF_ARROW_BUILD(ID, CLASS)                                                                                                                                                                      \
  case Type::ID:                                                                                                                                                                                       \
    return std::make_shared<CLASS>();
    VF_ARROW_BUILD(BOOL, BooleanBuilder)
    VF_ARROW_BUILD(UINT8, UInt8Builder)
    VF_ARROW_BUILD(INT8, Int8Builder)
    VF_ARROW_BUILD(UINT16, UInt16Builder)
    VF_ARROW_BUILD(INT16, Int16Builder)
    VF_ARROW_BUILD(UINT32, UInt32Builder)
    VF_ARROW_BUILD(INT32, Int32Builder)
    VF_ARROW_BUILD(UINT64, UInt64Builder)
    VF_ARROW_BUILD(INT64, Int64Builder)
    VF_ARROW_BUILD(FLOAT, FloatBuilder)
    VF_ARROW_BUILD(DOUBLE, DoubleBuilder)
    VF_ARROW_BUILD(STRING, StringBuilder)
  case Type::LIST:
    return std::make_shared<ListBuilder>(nullptr, ch[0], t);
  case Type::FIXED_SIZE_LIST:
    return std::make_shared<FixedSizeListBuilder>(nullptr, ch[0], t);
  case Type::STRUCT:
    return std::make_shared<StructBuilder>(t, nullptr, ch);
  case Type::MAP:
    return std::make_shared<MapBuilder>(nullptr, ch[0], t);
  }
  return nullptr;
}
// the library gives ownership away
class OwningBuilder;
inline Status MakeBuilder(MemoryPool*, const std::shared_ptr<DataType>& t, std::unique_ptr<ArrayBuilder>* out) {
  if (!t) {
    return Status::Invalid("no type");
  }
  std::vector<std::shared_ptr<ArrayBuilder>> ch;
  for (auto& f : t->fields()) {
    ch.push_back(makeBuilder(f->type()));
  }
  switch (t->id()) {
#undef VF_ARROW_BUILD
#define VF_ARROW_BUILD(ID, CLASS)                                                                                                                                                                      \
  case Type::ID:                                                                                                                                                                                       \
    *out = std::make_unique<CLASS>();                                                                                                                                                                  \
    break;
    VF_ARROW_BUILD(BOOL, BooleanBuilder)
    VF_ARROW_BUILD(UINT8, UInt8Builder)
    VF_ARROW_BUILD(INT8, Int8Builder)
    VF_ARROW_BUILD(UINT16, UInt16Builder)
    VF_ARROW_BUILD(INT16, Int16Builder)
    VF_ARROW_BUILD(UINT32, UInt32Builder)
    VF_ARROW_BUILD(INT32, Int32Builder)
    VF_ARROW_BUILD(UINT64, UInt64Builder)
    VF_ARROW_BUILD(INT64, Int64Builder)
    VF_ARROW_BUILD(FLOAT, FloatBuilder)
    VF_ARROW_BUILD(DOUBLE, DoubleBuilder)
    VF_ARROW_BUILD(STRING, StringBuilder)
  case Type::LIST:
    *out = std::make_unique<ListBuilder>(nullptr, ch[0], t);
    break;
  case Type::FIXED_SIZE_LIST:
    *out = std::make_unique<FixedSizeListBuilder>(nullptr, ch[0], t);
    break;
  case Type::STRUCT:
    *out = std::make_unique<StructBuilder>(t, nullptr, ch);
    break;
  case Type::MAP:
    *out = std::make_unique<MapBuilder>(nullptr, ch[0], t);
    break;
  }
  return {};
}
inline Result<std::unique_ptr<ArrayBuilder>> MakeBuilder(const std::shared_ptr<DataType>& t, MemoryPool* p = default_memory_pool()) {
  std::unique_ptr<ArrayBuilder> b;
  if (auto s = MakeBuilder(p, t, &b); !s.ok()) {
    return s;
  }
  return b;
}
void ArrayBuilder::copyOf(const Array& a, int64_t i) {
  require(m_type->Equals(*a.type()), "copy to another type");
  require(a.IsValid(i), "not in the stand-in");
  const auto at = a.offset() + i;
  switch (m_type->id()) {
  case Type::STRING:
    m_buf.strings.push_back(a.buf().strings[at]);
    break;
  case Type::LIST:
  case Type::MAP:
    m_buf.offsets.push_back(static_cast<int32_t>(m_ch[0]->m_length));
    for (int32_t k = a.buf().offsets[at]; k < a.buf().offsets[at + 1]; ++k) {
      m_ch[0]->copyOf(*a.children()[0], k);
    }
    break;
  case Type::FIXED_SIZE_LIST:
    for (int64_t k = 0; k < m_type->list_size(); ++k) {
      m_ch[0]->copyOf(*a.children()[0], at * m_type->list_size() + k);
    }
    break;
  case Type::STRUCT:
    for (size_t k = 0; k < m_ch.size(); ++k) {
      m_ch[k]->copyOf(*a.children()[k], at);
    }
    break;
  default:
    m_buf.bits.push_back(a.buf().bits[at]);
  }
  slot();
}
inline Result<std::shared_ptr<Array>> Concatenate(const ArrayVector& arrays, MemoryPool* = default_memory_pool()) {
  if (arrays.empty()) {
    return Status::Invalid("Must pass at least one array");
  }
  auto b = makeBuilder(arrays[0]->type());
  for (auto& a : arrays) {
    for (int64_t i = 0; i < a->length(); ++i) {
      b->copyOf(*a, i);
    }
  }
  return b->Finish();
}

// ------------------------------------------------------------------ tables
class ChunkedArray {
public:
  explicit ChunkedArray(ArrayVector c, std::shared_ptr<DataType> t = nullptr) : m_chunks(std::move(c)), m_type(std::move(t)) {
    if (!m_type) {
      require(!m_chunks.empty(), "chunked array without chunks and type");
      m_type = m_chunks[0]->type();
    }
  }
  int64_t length() const {
    int64_t n = 0;
    for (auto& c : m_chunks) {
      n += c->length();
    }
    return n;
  }
  int num_chunks() const {
    return static_cast<int>(m_chunks.size());
  }
  std::shared_ptr<Array> chunk(int i) const {
    require(i >= 0 && i < num_chunks(), "chunk of an array");
    return m_chunks[i];
  }
  const ArrayVector& chunks() const {
    return m_chunks;
  }
  const std::shared_ptr<DataType>& type() const {
    return m_type;
  }
  std::shared_ptr<ChunkedArray> Slice(int64_t off, int64_t len) const {
    ArrayVector r;
    for (auto& c : m_chunks) {
      if (off >= c->length()) {
        off -= c->length();
        continue;
      }
      if (len <= 0) {
        break;
      }
      r.push_back(c->Slice(off, len));
      len -= r.back()->length();
      off = 0;
    }
    return std::make_shared<ChunkedArray>(r, m_type);
  }

private:
  ArrayVector m_chunks;
  std::shared_ptr<DataType> m_type;
};
class RecordBatch {
public:
  static std::shared_ptr<RecordBatch> Make(std::shared_ptr<Schema> s, int64_t rows, ArrayVector cols) {
    auto r = std::make_shared<RecordBatch>();
    r->m_schema = std::move(s);
    r->m_rows = rows;
    r->m_cols = std::move(cols);
    require(r->m_cols.size() == static_cast<size_t>(r->m_schema->num_fields()), "record batch with different numbers of fields and columns");
    return r;
  }
  Status ValidateFull() const {
    for (int i = 0; i < m_schema->num_fields(); ++i) {
      const auto& f = *m_schema->field(i);
      if (!m_cols[i]->type()->Equals(*f.type())) {
        return Status::Invalid("column ", f.name(), " type does not match: ", m_cols[i]->type()->ToString(), " vs ", f.type()->ToString());
      }
      if (m_cols[i]->length() != m_rows) {
        return Status::Invalid("column ", f.name(), " has ", m_cols[i]->length(), " rows");
      }
      if (auto s = m_cols[i]->ValidateFull(); !s.ok()) {
        return s;
      }
    }
    return {};
  }
  Status Validate() const {
    return ValidateFull();
  }
  int64_t num_rows() const {
    return m_rows;
  }
  int num_columns() const {
    return static_cast<int>(m_cols.size());
  }
  const std::shared_ptr<Schema>& schema() const {
    return m_schema;
  }
  const std::shared_ptr<Array>& column(int i) const {
    return m_cols.at(i);
  }

private:
  std::shared_ptr<Schema> m_schema;
  int64_t m_rows{0};
  ArrayVector m_cols;
};
class Table {
public:
  using Columns = std::vector<std::shared_ptr<ChunkedArray>>;
  static std::shared_ptr<Table> Make(std::shared_ptr<Schema> s, Columns c, int64_t rows = -1) {
    auto r = std::make_shared<Table>();
    r->m_schema = std::move(s);
    r->m_cols = std::move(c);
    r->m_rows = rows >= 0 ? rows : r->m_cols.empty() ? 0 : r->m_cols[0]->length();
    return r;
  }
  static std::shared_ptr<Table> Make(std::shared_ptr<Schema> s, const ArrayVector& c, int64_t rows = -1) {
    Columns cc;
    for (auto& a : c) {
      cc.push_back(std::make_shared<ChunkedArray>(ArrayVector{a}));
    }
    return Make(std::move(s), std::move(cc), rows);
  }
  static Result<std::shared_ptr<Table>> FromRecordBatches(std::shared_ptr<Schema> s, const std::vector<std::shared_ptr<RecordBatch>>& bs) {
    Columns c;
    int64_t rows = 0;
    for (auto& b : bs) {
      if (!b->schema()->Equals(*s)) {
        return Status::Invalid("Schema at index was different");
      }
      rows += b->num_rows();
    }
    for (int i = 0; i < s->num_fields(); ++i) {
      ArrayVector a;
      for (auto& b : bs) {
        a.push_back(b->column(i));
      }
      c.push_back(std::make_shared<ChunkedArray>(a, s->field(i)->type()));
    }
    return Make(std::move(s), std::move(c), rows);
  }
  static Result<std::shared_ptr<Table>> FromRecordBatches(const std::vector<std::shared_ptr<RecordBatch>>& bs) {
    if (bs.empty()) {
      return Status::Invalid("Must pass at least one record batch or an explicit Schema");
    }
    return FromRecordBatches(bs[0]->schema(), bs);
  }
  int64_t num_rows() const {
    return m_rows;
  }
  int num_columns() const {
    return static_cast<int>(m_cols.size());
  }
  const std::shared_ptr<Schema>& schema() const {
    return m_schema;
  }
  std::shared_ptr<ChunkedArray> column(int i) const {
    require(i >= 0 && i < num_columns(), "column of a table");
    return m_cols[i];
  }
  std::shared_ptr<Field> field(int i) const {
    return m_schema->field(i);
  }
  std::vector<std::string> ColumnNames() const {
    return m_schema->field_names();
  }
  std::shared_ptr<ChunkedArray> GetColumnByName(const std::string& n) const {
    const int i = m_schema->GetFieldIndex(n);
    return i < 0 ? nullptr : m_cols[i];
  }
  std::shared_ptr<Table> Slice(int64_t off, int64_t len) const {
    Columns c;
    for (auto& a : m_cols) {
      c.push_back(a->Slice(off, len));
    }
    return Make(m_schema, std::move(c), std::min(len, m_rows - off));
  }
  Result<std::shared_ptr<Table>> CombineChunks(MemoryPool* = default_memory_pool()) const {
    Columns c;
    for (auto& a : m_cols) {
      auto one = Concatenate(a->chunks());
      if (!one.ok()) {
        return one.status();
      }
      c.push_back(std::make_shared<ChunkedArray>(ArrayVector{one.ValueOrDie()}));
    }
    return Make(m_schema, std::move(c), m_rows);
  }
  Result<std::shared_ptr<Table>> SelectColumns(const std::vector<int>& which) const {
    Columns c;
    FieldVector f;
    for (int i : which) {
      c.push_back(column(i));
      f.push_back(field(i));
    }
    return Make(arrow::schema(f), std::move(c), m_rows);
  }
  Status ValidateFull() const {
    for (int i = 0; i < num_columns(); ++i) {
      if (m_cols[i]->length() != m_rows) {
        return Status::Invalid("column ", m_schema->field(i)->name(), " has ", m_cols[i]->length(), " rows");
      }
      for (auto& a : m_cols[i]->chunks()) {
        if (!a->type()->Equals(*m_schema->field(i)->type())) {
          return Status::Invalid("column type does not match");
        }
        if (auto s = a->ValidateFull(); !s.ok()) {
          return s;
        }
      }
    }
    return {};
  }
  Status Validate() const {
    return ValidateFull();
  }

private:
  std::shared_ptr<Schema> m_schema;
  Columns m_cols;
  int64_t m_rows{0};
};
inline Result<std::shared_ptr<Table>> ConcatenateTables(const std::vector<std::shared_ptr<Table>>& ts) {
  if (ts.empty()) {
    return Status::Invalid("Must pass at least one table");
  }
  Table::Columns c;
  for (int i = 0; i < ts[0]->num_columns(); ++i) {
    ArrayVector a;
    for (auto& t : ts) {
      if (!t->schema()->Equals(*ts[0]->schema())) {
        return Status::Invalid("Schema at index was different");
      }
      for (auto& k : t->column(i)->chunks()) {
        a.push_back(k);
      }
    }
    c.push_back(std::make_shared<ChunkedArray>(a, ts[0]->field(i)->type()));
  }
  int64_t rows = 0;
  for (auto& t : ts) {
    rows += t->num_rows();
  }
  return Table::Make(ts[0]->schema(), std::move(c), rows);
}

} // namespace arrow
#endif
