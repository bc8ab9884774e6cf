// I05: the SQLite helpers over a database every call of which may fail. The library is replaced by one which accounts for
// connections and statements; results of the statements are arbitrary.
#include "zv.h"
#include <array>
#include <map>
#include <memory>
#include <string>
#include <string_view>
#include <vector>
#include "sqlite3.h"
#include "zserio/CppRuntimeException.h"
#include "zserio/SqliteConnection.h"
#include "zserio/SqliteFinalizer.h"
#include "zserio/SqliteUtil.h"
#include "zserio/ValidationSqliteUtil.h"

namespace
{

template <typename T>
struct Alloc : std::allocator<T>
{
    template <typename U>
    struct rebind { using other = Alloc<U>; };
    Alloc() = default;
    template <typename U>
    Alloc(const Alloc<U>&) {}
};
using A = Alloc<uint8_t>;
using Text = zserio::BasicString<Alloc<char>>;
using Sv = std::string_view;
using zserio::SqliteConnection;
using zserio::SqliteException;

// ---- the database -----------------------------------------------------------------------------------------------
struct Db { bool open = true; size_t closed = 0; };
Db g_db[3];
char g_handles[3];
char g_statements[4];

struct Database
{
    size_t prepared = 0, finalized = 0;      // statements made and released
    bool alive[4] = {false, false, false, false};
    size_t steps = 0;
    int lastStep = 0;
    bool fault = false;                      // a call has failed
    size_t current = 0;                      // the connection statements have to be prepared on
    Sv query[3];                             // what has to be asked
    size_t queries = 0;                      // questions expected
    bool anyQuery = false;
    int lastError = 0;
    // result rows
    size_t rows = 0, row = 0;
    bool rowsAny = false;
    bool autocommit = true;
};
Database g;

constexpr size_t NODB = 100;
size_t dbOf(sqlite3* db)
{
    for (size_t i = 0; i < 3; ++i)
        if (reinterpret_cast<char*>(db) == &g_handles[i]) return i;
    return NODB;
}
sqlite3* handle(size_t i) { return i == 0 ? nullptr : reinterpret_cast<sqlite3*>(&g_handles[i]); }
size_t statementOf(sqlite3_stmt* s)
{
    for (size_t i = 0; i < 4; ++i)
        if (reinterpret_cast<char*>(s) == &g_statements[i]) return i;
    return NODB;
}
sqlite3_stmt* statement(size_t i) { return reinterpret_cast<sqlite3_stmt*>(&g_statements[i]); }

int error(const char*)
{
    // any error which is neither success nor a row nor the end
    const uint64_t which = zv_split(0, 1);
    g.fault = true;
    g.lastError = which == 0 ? SQLITE_BUSY : SQLITE_ERROR;
    return g.lastError;
}

} // namespace

extern "C"
{
int sqlite3_close_v2(sqlite3* db)
{
    if (db == nullptr) return SQLITE_OK;
    const size_t i = dbOf(db);
    zv_check(i != NODB && i != 0, "a connection which is closed is one which was given");
    zv_check(g_db[i].open, "a connection is closed once");
    g_db[i].open = false;
    g_db[i].closed++;
    return SQLITE_OK;
}
int sqlite3_close(sqlite3* db) { return sqlite3_close_v2(db); }

static int prepare(sqlite3* db, const char* text, int n, sqlite3_stmt** out, const char** tail)
{
    zv_check(dbOf(db) == g.current && db != nullptr, "a statement is prepared on the connection");
    zv_check(g_db[g.current].open, "a statement is prepared on an open connection");
    if (!g.anyQuery)
    {
        zv_check(g.prepared < g.queries, "no more is asked than needed");
        const Sv want = g.query[g.prepared];
        size_t len = 0;
        if (n < 0) while (text[len] != 0) ++len;
        else { len = static_cast<size_t>(n); if (len == want.size() + 1) { zv_check(text[len - 1] == 0, "the query is the text of the query"); --len; } }
        zv_check_eq(len, want.size(), "the query has the length of the query");
        for (size_t i = 0; i < len && i < want.size(); ++i)
            zv_check(text[i] == want[i], "the query is the one which was to be asked");
    }
    if (tail != nullptr) *tail = text;
    *out = nullptr;
    if (zv_choice("preparing fails")) return error("prepare");
    zv_check(g.prepared < 4, "statements are few");
    g.alive[g.prepared] = true;
    *out = statement(g.prepared++);
    return SQLITE_OK;
}
int sqlite3_prepare_v2(sqlite3* db, const char* text, int n, sqlite3_stmt** out, const char** tail) { return prepare(db, text, n, out, tail); }
int sqlite3_prepare_v3(sqlite3* db, const char* text, int n, unsigned int, sqlite3_stmt** out, const char** tail) { return prepare(db, text, n, out, tail); }

int sqlite3_finalize(sqlite3_stmt* s)
{
    if (s == nullptr) return SQLITE_OK;
    const size_t i = statementOf(s);
    zv_check(i != NODB, "what is finalised is a statement");
    zv_check(g.alive[i], "a statement is finalised once");
    g.alive[i] = false;
    g.finalized++;
    // repeats the error of the last step
    return g.lastStep == SQLITE_ROW || g.lastStep == SQLITE_DONE ? SQLITE_OK : g.lastStep;
}
int sqlite3_reset(sqlite3_stmt*) { return SQLITE_OK; }
int sqlite3_step(sqlite3_stmt* s)
{
    const size_t i = statementOf(s);
    zv_check(i != NODB && g.alive[i], "only a living statement is executed");
    g.steps++;
    if (zv_choice("a step fails")) return g.lastStep = error("step");
    if (g.rowsAny ? zv_choice("a row") : g.row < g.rows) { g.row++; return g.lastStep = SQLITE_ROW; }
    return g.lastStep = SQLITE_DONE;
}
int sqlite3_get_autocommit(sqlite3* db)
{
    zv_check(dbOf(db) == g.current, "the connection itself is asked");
    return g.autocommit ? 1 : 0;
}
const char* sqlite3_errstr(int code)
{
    return code == SQLITE_BUSY ? "busy" : code == SQLITE_ERROR ? "error" : code == SQLITE_ROW ? "row" : code == SQLITE_DONE ? "done" : "other";
}
const char* sqlite3_errmsg(sqlite3*) { return "message"; }
int sqlite3_errcode(sqlite3*) { return g.lastError; }
int sqlite3_changes(sqlite3*) { return 0; }
} // extern "C"

namespace
{

void done()
{
    zv_check_eq(g.finalized, g.prepared, "every statement is finalised");
}

// what an exception says ends with the error of the call which failed
void says(const zserio::CppRuntimeException& e)
{
    const char* what = e.what();
    const Sv want = sqlite3_errstr(g.lastError);
    size_t n = 0;
    while (what[n] != 0) ++n;
    zv_check(n >= want.size() && Sv(what + n - want.size(), want.size()) == want, "the exception names the error of the call which failed");
}

struct Given { size_t db; bool internal; };

} // namespace

// connections: any history of three operations; what is given as internal is closed exactly once when it is replaced or at the end
ZV_HARNESS(I05_connection)
{
    const uint64_t first = zv_split(0, 1), firstInternal = zv_split(0, 1);
    const uint64_t op1 = zv_split(0, 2);
    zv_shard();
    const uint64_t op2 = zv_split(0, 2);
    Given held{first, firstInternal != 0};
    {
        SqliteConnection c = first == 0 && firstInternal != 0
                ? SqliteConnection()
                : SqliteConnection(handle(first), firstInternal != 0 ? SqliteConnection::INTERNAL_CONNECTION : SqliteConnection::EXTERNAL_CONNECTION);
        for (int i = 0; i < 2; ++i)
        {
            const uint64_t op = i == 0 ? op1 : op2;
            const Given before = held;
            if (op == 1)
            {
                c.reset();
                held = {0, true};
            }
            else if (op == 2)
            {
                // a connection which is not in use
                const size_t next = zv_split(0, 1) == 0 ? 0 : (g_db[2].open && before.db != 2 ? 2 : 0);
                const bool internal = zv_split(0, 1) != 0;
                c.reset(handle(next), internal ? SqliteConnection::INTERNAL_CONNECTION : SqliteConnection::EXTERNAL_CONNECTION);
                held = {next, internal};
            }
            if (op != 0 && before.db != 0) zv_check_eq(g_db[before.db].closed, before.internal ? 1 : 0, "a connection which is replaced is closed exactly if it is an internal one");
            zv_check(c.getConnection() == handle(held.db), "the connection is the one given last");
            zv_check((c.getConnectionType() == SqliteConnection::INTERNAL_CONNECTION) == held.internal, "the type of the connection is the one given last");
            if (held.db != 0) zv_check(g_db[held.db].open, "the connection held is open");
        }
        if (held.internal) zv_cover("internal");
        else zv_cover("external");
    }
    if (held.db != 0) zv_check_eq(g_db[held.db].closed, held.internal ? 1 : 0, "a connection is closed in the end exactly if it is an internal one");
    for (size_t i = 1; i < 3; ++i) zv_check(g_db[i].closed <= 1, "no connection is closed twice");
}

// statements and transactions
ZV_HARNESS(I05_statements)
{
    zv_mode("exc_exact", 1);
    const uint64_t op = zv_split(0, 3), internal = zv_split(0, 1);
    g.rowsAny = zv_split(0, 1) != 0;
    zv_shard();
    g.current = 1;
    {
        SqliteConnection c(handle(1), internal != 0 ? SqliteConnection::INTERNAL_CONNECTION : SqliteConnection::EXTERNAL_CONNECTION);
        bool raised = false;
        static const char TEXT[] = "INSERT x";
        try
        {
            if (op == 0)
            {
                g.query[0] = Sv(TEXT, zv_split(0, 8)); g.queries = 1;
                sqlite3_stmt* s = c.prepareStatement(g.query[0]);
                zv_check(s == statement(0), "the statement prepared is given");
                zv_check(!g.fault, "a statement is given only if it could be prepared");
                sqlite3_finalize(s);
            }
            else if (op == 1)
            {
                g.query[0] = Sv(TEXT, zv_split(0, 8)); g.queries = 1;
                c.executeUpdate(g.query[0]);
                zv_check(g.steps >= 1 && g.lastStep == SQLITE_DONE, "an update which ran to its end returns");
            }
            else if (op == 2)
            {
                g.autocommit = zv_split(0, 1) != 0;
                if (g.autocommit) { g.query[0] = "BEGIN;"; g.queries = 1; }
                const bool started = c.startTransaction();
                zv_check(started == g.autocommit, "a transaction is started exactly if there was none");
                zv_check_eq(g.steps, started ? 1 : 0, "a transaction is started by its statement");
            }
            else
            {
                const bool started = zv_split(0, 1) != 0;
                if (started) { g.query[0] = "COMMIT;"; g.queries = 1; }
                c.endTransaction(started);
                zv_check_eq(g.steps, started ? 1 : 0, "a transaction which was started is ended by its statement");
            }
        }
        catch (const SqliteException& e)
        {
            raised = true;
            if (g.fault) says(e);
        }
        const bool notDone = g.steps != 0 && g.lastStep != SQLITE_DONE;
        zv_check(raised == (g.fault || notDone), "a call fails exactly when one of the calls to the database did");
        done();
        zv_check(g_db[1].open, "a failed statement does not close the connection");
        if (raised) zv_cover("failed");
        else zv_cover("succeeded");
    }
    done();
    zv_check_eq(g_db[1].closed, internal, "an internal connection is closed");
}

// ---- columns ------------------------------------------------------------------------------------------------------
namespace
{

enum Kind { K_NONE, K_INT, K_REAL, K_TEXT, K_BLOB, K_NULL };
struct Column
{
    Kind kind = K_NONE;
    int index = -1;
    int64_t number = 0;
    uint64_t real = 0;
    uint8_t bytes[8];
    uint64_t size = 0;
    const void* big = nullptr;
    size_t calls = 0;
    int result = 0;
};
Column g_column;

int bound(sqlite3_stmt* s, int index, Kind kind)
{
    zv_check(s == statement(0), "a value is bound to the statement given");
    g_column.kind = kind;
    g_column.index = index;
    g_column.calls++;
    g_column.result = zv_choice("binding fails") ? SQLITE_RANGE : SQLITE_OK;
    return g_column.result;
}
int boundBytes(sqlite3_stmt* s, int index, Kind kind, const void* p, uint64_t n, bool negative)
{
    if (p == nullptr) kind = K_NULL;
    else
    {
        if (negative) { zv_fail("the size of a value which is bound is the one of the value"); }
        g_column.size = n;
        g_column.big = p;
        if (n <= 8)
            for (uint64_t i = 0; i < n; ++i) g_column.bytes[i] = static_cast<const uint8_t*>(p)[i];
    }
    return bound(s, index, kind);
}
bool isTransient(void (*destroy)(void*)) { return destroy == SQLITE_TRANSIENT; }
uint64_t rawOf(double d) { uint64_t r; __builtin_memcpy(&r, &d, 8); return r; }
double realOf(uint64_t r) { double d; __builtin_memcpy(&d, &r, 8); return d; }
void asked(sqlite3_stmt* s, int index)
{
    zv_check(s == statement(0), "the statement given is asked");
    zv_check_eq(static_cast<uint32_t>(index), static_cast<uint32_t>(g_column.index), "the column given is asked");
}
uint8_t g_text[12];
const char* g_names[3][2];
int g_flags[3][2];
bool g_schema = false;

} // namespace

extern "C"
{
int sqlite3_bind_null(sqlite3_stmt* s, int index) { return bound(s, index, K_NULL); }
int sqlite3_bind_int(sqlite3_stmt* s, int index, int v) { g_column.number = v; return bound(s, index, K_INT); }
int sqlite3_bind_int64(sqlite3_stmt* s, int index, sqlite3_int64 v) { g_column.number = v; return bound(s, index, K_INT); }
int sqlite3_bind_double(sqlite3_stmt* s, int index, double v) { g_column.real = rawOf(v); return bound(s, index, K_REAL); }
int sqlite3_bind_text(sqlite3_stmt* s, int index, const char* p, int n, void (*destroy)(void*))
{
    zv_check(isTransient(destroy), "a text is copied when it is bound");
    return boundBytes(s, index, K_TEXT, p, static_cast<uint64_t>(n), n < 0);
}
int sqlite3_bind_text64(sqlite3_stmt* s, int index, const char* p, sqlite3_uint64 n, void (*destroy)(void*), unsigned char encoding)
{
    zv_check(isTransient(destroy), "a text is copied when it is bound");
    zv_check(encoding == SQLITE_UTF8, "a text is bound in its encoding");
    return boundBytes(s, index, K_TEXT, p, n, false);
}
int sqlite3_bind_blob(sqlite3_stmt* s, int index, const void* p, int n, void (*destroy)(void*))
{
    zv_check(isTransient(destroy) || n == 0, "a blob is copied when it is bound");
    return boundBytes(s, index, K_BLOB, p, static_cast<uint64_t>(n), n < 0);
}
int sqlite3_bind_blob64(sqlite3_stmt* s, int index, const void* p, sqlite3_uint64 n, void (*destroy)(void*))
{
    zv_check(isTransient(destroy) || n == 0, "a blob is copied when it is bound");
    return boundBytes(s, index, K_BLOB, p, n, false);
}
int sqlite3_bind_zeroblob(sqlite3_stmt* s, int index, int n)
{
    zv_check(n == 0, "a blob is bound with its bytes");
    g_column.size = 0;
    return bound(s, index, K_BLOB);
}
sqlite3_int64 sqlite3_column_int64(sqlite3_stmt* s, int index) { asked(s, index); return g_column.number; }
double sqlite3_column_double(sqlite3_stmt* s, int index) { asked(s, index); return realOf(g_column.real); }
const void* sqlite3_column_blob(sqlite3_stmt* s, int index) { asked(s, index); return g_column.size == 0 ? nullptr : g_column.big; }
const unsigned char* sqlite3_column_text(sqlite3_stmt* s, int index)
{
    if (g_schema)
    {
        zv_check(statementOf(s) == 0 && g.alive[0] && g.lastStep == SQLITE_ROW, "a column is asked for while there is a row");
        return reinterpret_cast<const unsigned char*>(g_names[g.row - 1][index == 1 ? 0 : 1]);
    }
    asked(s, index);
    return static_cast<const unsigned char*>(g_column.big);
}
int sqlite3_column_bytes(sqlite3_stmt* s, int index) { asked(s, index); return static_cast<int>(g_column.size); }
int sqlite3_column_type(sqlite3_stmt*, int)
{
    return g_column.kind == K_INT ? SQLITE_INTEGER : g_column.kind == K_REAL ? SQLITE_FLOAT : g_column.kind == K_TEXT ? SQLITE_TEXT
            : g_column.kind == K_BLOB ? SQLITE_BLOB : SQLITE_NULL;
}
int sqlite3_column_int(sqlite3_stmt* s, int index)
{
    if (g_schema)
    {
        zv_check(statementOf(s) == 0 && g.alive[0] && g.lastStep == SQLITE_ROW, "a column is asked for while there is a row");
        return g_flags[g.row - 1][index == 3 ? 0 : 1];
    }
    asked(s, index);
    return static_cast<int>(g_column.number);
}
} // extern "C"

namespace
{

template <typename T>
void number(const char*, uint64_t bits, bool isSigned)
{
    const int index = static_cast<int>(zv_sym("index", 31));
    g_column.index = -1;
    uint64_t raw = zv_sym("value", bits);
    if (isSigned && bits < 64 && ((raw >> (bits - 1)) & 1)) raw |= ~uint64_t(0) << bits;
    const T value(static_cast<typename T::ValueType>(raw));
    const int result = zserio::detail::bindColumn(*statement(0), index, value, zserio::BitSize(bits), A());
    zv_check_eq(g_column.calls, 1, "a value is bound once");
    zv_check(g_column.kind == K_INT, "an integer is bound as one");
    zv_check_eq(static_cast<uint32_t>(g_column.index), static_cast<uint32_t>(index), "a value is bound at the index given");
    zv_check_eq(static_cast<uint32_t>(result), static_cast<uint32_t>(g_column.result), "the result of binding is given");
    zv_check_eq(static_cast<uint64_t>(g_column.number), raw, "an integer is bound as its value");
    zserio::BasicOptional<A, T> read;
    zserio::detail::readColumn(read, *statement(0), index);
    zv_check(read.has_value(), "a column which is read has a value");
    zv_check_eq(static_cast<uint64_t>(static_cast<typename T::ValueType>(*read)), raw, "an integer is read as the value bound");
    zv_cover("integer");
}

template <typename T, typename V>
void real()
{
    const int index = static_cast<int>(zv_sym("index", 31));
    const uint64_t raw = zv_sym("value", sizeof(V) * 8);
    V v;
    __builtin_memcpy(&v, &raw, sizeof(V));
    const int result = zserio::detail::bindColumn(*statement(0), index, T(v), zserio::BitSize(0), A());
    zv_check_eq(g_column.calls, 1, "a value is bound once");
    zv_check(g_column.kind == K_REAL, "a floating point number is bound as one");
    zv_check_eq(static_cast<uint32_t>(g_column.index), static_cast<uint32_t>(index), "a value is bound at the index given");
    zv_check_eq(static_cast<uint32_t>(result), static_cast<uint32_t>(g_column.result), "the result of binding is given");
    if (sizeof(V) == 8) zv_check_eq(g_column.real, raw, "a floating point number is bound as its value");
    zserio::BasicOptional<A, T> read;
    zserio::detail::readColumn(read, *statement(0), index);
    zv_check(read.has_value(), "a column which is read has a value");
    if (sizeof(V) == 8)
    {
        const V got = static_cast<V>(*read);
        uint64_t back = 0;
        __builtin_memcpy(&back, &got, sizeof(V));
        zv_check_eq(back, raw, "a floating point number is read as the value bound");
    }
    zv_cover("real");
}

// an object of any bit size and content
struct Blob
{
    uint64_t content = 0;
    uint64_t size = 0;
    uint64_t parameter = 0;
    bool read = false;
};
uint64_t g_blobCalls = 0;
uint64_t g_blobBits = 0;

} // namespace

namespace zserio
{
template <>
class View<Blob>
{
public:
    explicit View(const Blob& data, uint64_t parameter = 0) : m_data(&data), m_parameter(parameter) {}
    const Blob* data() const { return m_data; }
    uint64_t parameter() const { return m_parameter; }

private:
    const Blob* m_data;
    uint64_t m_parameter;
};
namespace detail
{
template <>
struct ObjectTraits<Blob>
{
    static void validate(const View<Blob>&, std::string_view)
    {
        zv_check(g_blobCalls == 0, "an object is validated first");
        g_blobCalls = 1;
        if (zv_choice("the object is invalid")) throw CppRuntimeException("invalid");
    }
    static BitSize bitSizeOf(const View<Blob>& view, BitSize) { return static_cast<BitSize>(view.data()->size); }
    static BitSize initializeOffsets(const View<Blob>& view, BitSize position)
    {
        zv_check(g_blobCalls == 1, "offsets are initialised when the object has been validated");
        zv_check_eq(position, 0, "an object of a column begins at position zero");
        g_blobCalls = 2;
        return static_cast<BitSize>(view.data()->size);
    }
    static void write(BitStreamWriter& writer, const View<Blob>& view)
    {
        if (view.data()->size == 0) return;
        writer.writeUnsignedBits64(view.data()->content, static_cast<uint8_t>(view.data()->size));
        bool refused = false;
        try { writer.setBitPosition(view.data()->size + 1); } catch (const CppRuntimeException&) { refused = true; }
        zv_check(refused, "the memory of a blob has exactly the computed size");
        writer.setBitPosition(view.data()->size);
    }
    static View<Blob> read(BitStreamReader& reader, Blob& data, uint64_t parameter = 0)
    {
        data.read = true;
        data.parameter = parameter;
        zv_check_eq(reader.getBufferBitSize(), (g_blobBits + 7) / 8 * 8, "an object is read from all bytes of its column");
        if (g_blobBits != 0) data.content = reader.readUnsignedBits64(static_cast<uint8_t>(g_blobBits));
        return View<Blob>(data, parameter);
    }
};
} // namespace detail
} // namespace zserio

// an object becomes a blob of its bytes, and is read from them
ZV_HARNESS(I05_blobs)
{
    g_blobBits = zv_split(0, 64);
    const uint64_t n = g_blobBits;
    zv_shard();
    const int index = static_cast<int>(zv_sym("index", 31));
    Blob blob;
    blob.size = n;
    blob.content = zv_sym("content", 64);
    if (n < 64) zv_assume((blob.content >> n) == 0);
    const zserio::View<Blob> view(blob);
    try
    {
        const zserio::BitSize size = zserio::detail::prepareColumn(view);
        zv_check(g_blobCalls == 2, "an object is validated and its offsets initialised before it is bound");
        zv_check_eq(size, n, "the size of the object is given");
        const int result = zserio::detail::bindColumn(*statement(0), index, view, size, A());
        zv_check_eq(g_column.calls, 1, "a value is bound once");
        zv_check_eq(static_cast<uint32_t>(result), static_cast<uint32_t>(g_column.result), "the result of binding is given");
    }
    catch (const zserio::CppRuntimeException&)
    {
        zv_check(g_blobCalls == 1 && g_column.calls == 0, "only an invalid object is refused, before anything is bound");
        zv_cover("invalid object");
        return;
    }
    zv_check(g_column.kind == K_BLOB, "an object is bound as blob");
    zv_check_eq(static_cast<uint32_t>(g_column.index), static_cast<uint32_t>(index), "a value is bound at the index given");
    zv_check_eq(g_column.size, (n + 7) / 8, "an object is bound with all its bytes");
    if (g_column.size != (n + 7) / 8) return;
    uint64_t whole = 0;
    for (uint64_t i = 0; i < g_column.size; ++i) whole = (whole << 8) | g_column.bytes[i];
    if (n != 0) zv_check_eq(whole >> ((8 - n % 8) % 8), blob.content, "the bytes bound are the ones the object is written as");
    uint8_t* stored = zv_buffer("stored", g_column.size);
    for (uint64_t i = 0; i < g_column.size; ++i) stored[i] = g_column.bytes[i];
    g_column.big = stored;
    zserio::BasicOptional<A, Blob> back;
    const uint64_t parameter = zv_sym("parameter", 64);
    zserio::detail::readColumn(back, *statement(0), index, parameter);
    zv_check(back.has_value() && back->read, "the object is read");
    zv_check_eq(back->parameter, parameter, "parameters are passed on");
    zv_check_eq(back->content, blob.content, "the object read is the one bound");
    zv_cover("blob");
}

// texts of any length are bound as they are; texts with any characters are read as they were bound
ZV_HARNESS(I05_texts)
{
    const uint64_t n = zv_split(0, 4);
    zv_shard();
    const int index = static_cast<int>(zv_sym("index", 31));
    const uint64_t size = n == 4 ? zv_sym("size", 40) : n;
    const char* data = reinterpret_cast<const char*>(zv_buffer("text", size + 1));
    zv_readonly(data);
    const int result = zserio::detail::bindColumn(*statement(0), index, Sv(data, size), zserio::BitSize(0), A());
    zv_check_eq(g_column.calls, 1, "a value is bound once");
    zv_check_eq(static_cast<uint32_t>(result), static_cast<uint32_t>(g_column.result), "the result of binding is given");
    zv_check(g_column.kind == K_TEXT, "a text is bound as text");
    zv_check_eq(static_cast<uint32_t>(g_column.index), static_cast<uint32_t>(index), "a value is bound at the index given");
    zv_check_eq(g_column.size, size, "a text is bound with all its characters");
    zv_check(g_column.big == data, "the text bound is the one given");
    if (n == 4) { zv_cover("long text"); return; }
    zv_assume(data[n] == 0);
    g_column.size = n;
    g_column.big = data;
    zserio::BasicOptional<A, Text> read;
    zserio::detail::readColumn<A>(read, *statement(0), index);
    zv_check(read.has_value(), "a column which is read has a value");
    zv_check_eq(read->size(), n, "a text is read with all its characters");
    if (read->size() != n) return;
    for (uint64_t i = 0; i < n; ++i) zv_check_eq(static_cast<uint8_t>((*read)[i]), static_cast<uint8_t>(data[i]), "a text is read with the characters it has");
    zv_cover("text");
}

ZV_HARNESS(I05_columns)
{
    const uint64_t what = zv_split(0, 13);
    zv_shard();
    switch (what)
    {
    case 0: number<zserio::Bool>("bool", 1, false); break;
    case 1: number<zserio::UInt8>("uint8", 8, false); break;
    case 2: number<zserio::Int8>("int8", 8, true); break;
    case 3: number<zserio::UInt32>("uint32", 32, false); break;
    case 4: number<zserio::Int<37>>("int:37", 37, true); break;
    case 5: number<zserio::UInt64>("uint64", 64, false); break;
    case 6: number<zserio::Int64>("int64", 64, true); break;
    case 7: number<zserio::VarUInt16>("varuint16", 15, false); break;
    case 8: number<zserio::VarInt64>("varint64", 57, true); break;
    case 9: number<zserio::VarSize>("varsize", 31, false); break;
    case 10: number<zserio::DynUInt16>("bit<>", 16, false); break;
    case 11: number<zserio::DynInt32>("int<>", 32, true); break;
    case 12: real<zserio::Float64, double>(); break;
    default: real<zserio::Float32, float>(); break;
    }
}

// ---- questions about tables ---------------------------------------------------------------------------------------
namespace std
{
// the tree of a map without its balancing
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& header) noexcept
{
    x->_M_parent = p;
    x->_M_left = nullptr;
    x->_M_right = nullptr;
    x->_M_color = _S_red;
    if (left)
    {
        p->_M_left = x;
        if (p == &header)
        {
            header._M_parent = x;
            header._M_right = x;
        }
        else if (p == header._M_left) header._M_left = x;
    }
    else
    {
        p->_M_right = x;
        if (p == header._M_right) header._M_right = x;
    }
}
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) noexcept
{
    if (x->_M_right != nullptr)
    {
        x = x->_M_right;
        while (x->_M_left != nullptr) x = x->_M_left;
        return x;
    }
    _Rb_tree_node_base* y = x->_M_parent;
    while (x == y->_M_right)
    {
        x = y;
        y = y->_M_parent;
    }
    return x->_M_right != y ? y : x;
}
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) noexcept
{
    if (x->_M_parent->_M_parent == x && x->_M_left == nullptr) return x->_M_right; // the end
    if (x->_M_left != nullptr)
    {
        _Rb_tree_node_base* y = x->_M_left;
        while (y->_M_right != nullptr) y = y->_M_right;
        return y;
    }
    _Rb_tree_node_base* y = x->_M_parent;
    while (x == y->_M_left)
    {
        x = y;
        y = y->_M_parent;
    }
    return y;
}
} // namespace std

namespace
{

using Util = zserio::ValidationSqliteUtil<A>;
struct Query
{
    char text[64];
    size_t n = 0;
    Query& operator<<(Sv s)
    {
        for (char c : s) text[n++] = c;
        return *this;
    }
};
const char* const DBS[2] = {"", "db"};

} // namespace

ZV_HARNESS(I05_validation)
{
    zv_mode("exc_exact", 1);
    const uint64_t what = zv_split(0, 2), attached = zv_split(0, 1), internal = zv_split(0, 1);
    const uint64_t rows = what == 1 ? zv_split(0, 3) : 0;
    zv_shard();
    g.current = 1;
    Query q;
    const Sv dot = attached != 0 ? "." : "";
    if (what == 0) q << "SELECT count(*) FROM " << DBS[attached] << dot << "tab";
    else if (what == 1) q << "PRAGMA " << DBS[attached] << dot << "table_info(" << "tab" << ")";
    else q << "SELECT " << "col" << " FROM " << DBS[attached] << dot << "tab" << " LIMIT 0";
    g.query[0] = Sv(q.text, q.n);
    g.queries = 1;
    {
        SqliteConnection c(handle(1), internal != 0 ? SqliteConnection::INTERNAL_CONNECTION : SqliteConnection::EXTERNAL_CONNECTION);
        bool raised = false;
        Util::TableSchema schema{A()};
        static const char* const NAMES[2][3] = {{"b", "a", "c"}, {"xx", "x", "xxx"}};
        try
        {
            if (what == 0)
            {
                g.rowsAny = true;
                g_column.index = 0;
                g_column.number = static_cast<int64_t>(zv_sym("rows", 63));
                const size_t n = Util::getNumberOfTableRows(c, DBS[attached], "tab", A());
                zv_check(g.lastStep == SQLITE_ROW, "a number of rows is given only if there is one");
                zv_check_eq(n, static_cast<uint64_t>(g_column.number), "the number of rows is the one of the table");
            }
            else if (what == 1)
            {
                g.rows = rows;
                g_schema = true;
                const uint64_t set = zv_split(0, 1);
                for (size_t i = 0; i < rows; ++i)
                {
                    g_names[i][0] = NAMES[set][i];
                    g_names[i][1] = zv_split(0, 1) != 0 ? "TEXT" : "";
                    g_flags[i][0] = static_cast<int>(zv_sym("not null", 1));
                    g_flags[i][1] = static_cast<int>(zv_sym("primary key", 31));
                }
                Util::getTableSchema(c, DBS[attached], "tab", schema, A());
                zv_check_eq(g.steps, rows + 1, "all columns of the table are asked for");
                zv_check_eq(schema.size(), rows, "the schema has the columns of the table");
                for (size_t i = 0; i < rows; ++i)
                {
                    size_t found = 0;
                    for (const auto& column : schema)
                    {
                        if (Sv(column.first) != Sv(g_names[i][0])) continue;
                        ++found;
                        zv_check(Sv(column.second.name) == Sv(g_names[i][0]), "a column has its name");
                        zv_check(Sv(column.second.type) == Sv(g_names[i][1]), "a column has its type");
                        zv_check(column.second.isNotNull == (g_flags[i][0] != 0), "a column has its null constraint");
                        zv_check(column.second.isPrimaryKey == (g_flags[i][1] != 0), "a column is part of the primary key exactly if the table says so");
                    }
                    zv_check_eq(found, 1, "every column of the table is in the schema");
                }
            }
            else
            {
                const bool there = Util::isColumnInTable(c, DBS[attached], "tab", "col", A());
                zv_check(there == !g.fault, "a column is in the table exactly if it can be selected");
                zv_cover("column asked");
            }
        }
        catch (const SqliteException& e)
        {
            raised = true;
            if (g.fault) says(e);
        }
        const bool noRow = what == 0 && g.steps != 0 && g.lastStep != SQLITE_ROW;
        zv_check(raised == (what != 2 && (g.fault || noRow)), "a question fails exactly when one of the calls to the database did");
        done();
        zv_check(g_db[1].open, "a failed question does not close the connection");
        if (raised) zv_cover("failed");
        else zv_cover("answered");
    }
    zv_check_eq(g_db[1].closed, internal, "an internal connection is closed");
}

ZV_HARNESS(I05_names)
{
    const int type = static_cast<int>(zv_sym("type", 32));
    const Sv name = Util::sqliteColumnTypeName(type);
    zv_check(name == (type == SQLITE_INTEGER ? "INTEGER" : type == SQLITE_FLOAT ? "REAL" : type == SQLITE_TEXT ? "TEXT" : type == SQLITE_BLOB ? "BLOB" : "NULL"),
            "every column type has its name");
    zv_cover("name");
}
