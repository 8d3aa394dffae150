// A stand-in for the parts of the AWS SDK for C++ that z5's S3 backend uses: one object store in
// memory, shared by all clients of the process, that follows the S3 API where z5 can tell:
// ListObjectsV2 in byte order with prefix / delimiter / max-keys / continuation tokens (pages of a
// size the test chooses), HEAD of a missing object is RESOURCE_NOT_FOUND, GET is NO_SUCH_KEY,
// DELETE of a missing object succeeds, DeleteObjects takes at most 1000 keys and reports failures per key.
// Requests can be made to fail (see fakeaws::Fault).
#pragma once
#include <cstdint>
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

namespace fakeaws {

enum class Kind { none, throttled, internal, denied, network, truncated, perKey };

struct Store {
    std::mutex m;
    std::map<std::string, std::map<std::string, std::string>> buckets;
    std::size_t page = 1000;              // most keys per listing
    bool unknownLength = false;           // GET without a Content-Length
    bool initialized = false;
    long requests = 0, lists = 0, truncatedLists = 0;
    // the request number failAt (counted from arming) fails; -1: none
    long failAt = -1, seen = 0, failCount = 1, fired = 0;
    Kind kind = Kind::none;
    std::string firedOn;
    std::vector<std::string> log;
    void arm(long at, Kind k, long n) { failAt = at; kind = k; failCount = n; seen = 0; fired = 0; firedOn.clear(); }
    void disarm() { failAt = -1; kind = Kind::none; }
    // called with the lock held: what happens to this request
    Kind hit(const char * what, const std::string & key) {
        ++requests;
        if(failAt < 0) return Kind::none;
        const long k = seen++;
        if(k < failAt || k >= failAt + failCount) return Kind::none;
        const bool get = std::string(what) == "GET", many = std::string(what) == "DELETE-MANY";
        if(kind == Kind::truncated && !get) return Kind::none;
        if(kind == Kind::perKey && !many) return Kind::none;
        ++fired;
        firedOn += std::string(what) + " " + key + "; ";
        return kind;
    }
};

inline Store & store() { static Store s; return s; }

}

namespace Aws {

using String = std::string;
using StringStream = std::stringstream;
using IOStream = std::iostream;
template<class T> using Vector = std::vector<T>;

template<class T, class ... A> std::shared_ptr<T> MakeShared(const char *, A && ... a) { return std::make_shared<T>(std::forward<A>(a)...); }

namespace Utils { namespace Logging {
    enum class LogLevel { Off, Fatal, Error, Warn, Info, Debug, Trace };
    struct LogSystemInterface { virtual ~LogSystemInterface() {} };
    struct ConsoleLogSystem : LogSystemInterface { ConsoleLogSystem(LogLevel) {} };
} }

struct LoggingOptions {
    Utils::Logging::LogLevel logLevel = Utils::Logging::LogLevel::Off;
    std::function<std::shared_ptr<Utils::Logging::LogSystemInterface>()> logger_create_fn;
};
struct SDKOptions { LoggingOptions loggingOptions; };
inline void InitAPI(const SDKOptions &) { fakeaws::store().initialized = true; }
inline void ShutdownAPI(const SDKOptions &) { fakeaws::store().initialized = false; }

namespace Http {
    enum class Scheme { HTTP, HTTPS };
    enum class HttpResponseCode { REQUEST_NOT_MADE = -1, OK = 200, BAD_REQUEST = 400, FORBIDDEN = 403, NOT_FOUND = 404, INTERNAL_SERVER_ERROR = 500, SERVICE_UNAVAILABLE = 503 };
}

namespace Auth {
    struct AWSCredentials { AWSCredentials(const String & = "", const String & = "") {} };
    struct AWSCredentialsProvider { virtual ~AWSCredentialsProvider() {} };
    struct AnonymousAWSCredentialsProvider : AWSCredentialsProvider {};
    struct SimpleAWSCredentialsProvider : AWSCredentialsProvider { SimpleAWSCredentialsProvider(const String &, const String &) {} };
    struct DefaultAWSCredentialsProviderChain : AWSCredentialsProvider {};
}

namespace Client {
    struct ClientConfigurationInitValues { bool shouldDisableIMDS = false; };
    template<class E> class AWSError {
    public:
        AWSError() {}
        AWSError(E t, Http::HttpResponseCode c, const String & m) : type_(t), code_(c), message_(m) {}
        E GetErrorType() const { return type_; }
        Http::HttpResponseCode GetResponseCode() const { return code_; }
        const String & GetMessage() const { return message_; }
        const String & GetExceptionName() const { return message_; }
        bool ShouldRetry() const { return false; }
    private:
        E type_{}; Http::HttpResponseCode code_ = Http::HttpResponseCode::REQUEST_NOT_MADE; String message_;
    };
}

namespace Utils {
    template<class R, class E> class Outcome {
    public:
        Outcome() : ok_(false) {}
        Outcome(R && r) : r_(std::move(r)), ok_(true) {}
        Outcome(const E & e) : e_(e), ok_(false) {}
        bool IsSuccess() const { return ok_; }
        const R & GetResult() const { return r_; }
        R & GetResult() { return r_; }
        R && GetResultWithOwnership() { return std::move(r_); }
        const E & GetError() const { return e_; }
    private:
        R r_; E e_; bool ok_;
    };
}

namespace S3 {

enum class S3Errors { INTERNAL_FAILURE, SERVICE_UNAVAILABLE, SLOW_DOWN, ACCESS_DENIED, NETWORK_CONNECTION, RESOURCE_NOT_FOUND, NO_SUCH_KEY, NO_SUCH_BUCKET, UNKNOWN };
using S3Error = Client::AWSError<S3Errors>;

struct S3ClientConfiguration {
    S3ClientConfiguration() {}
    S3ClientConfiguration(const Client::ClientConfigurationInitValues &) {}
    String region, endpointOverride;
    long connectTimeoutMs = 0, requestTimeoutMs = 0;
    bool useVirtualAddressing = true;
    Http::Scheme scheme = Http::Scheme::HTTPS;
};
struct S3EndpointProvider {};

namespace Model {

#define FAKE_FIELD(CLS, T, N) \
    const T & Get##N() const { return m##N; } \
    void Set##N(const T & v) { m##N = v; has##N = true; } \
    CLS & With##N(const T & v) { Set##N(v); return *this; } \
    bool N##HasBeenSet() const { return has##N; } \
    T m##N{}; bool has##N = false;

struct Object { FAKE_FIELD(Object, String, Key) };
struct CommonPrefix { FAKE_FIELD(CommonPrefix, String, Prefix) };
struct ObjectIdentifier { FAKE_FIELD(ObjectIdentifier, String, Key) };
struct Error { FAKE_FIELD(Error, String, Key) FAKE_FIELD(Error, String, Code) FAKE_FIELD(Error, String, Message) };
struct Delete {
    Delete & AddObjects(const ObjectIdentifier & o) { objects.push_back(o); return *this; }
    const Vector<ObjectIdentifier> & GetObjects() const { return objects; }
    void SetObjects(const Vector<ObjectIdentifier> & o) { objects = o; }
    void SetQuiet(bool) {}
    Delete & WithQuiet(bool) { return *this; }
    Vector<ObjectIdentifier> objects;
};

struct GetObjectRequest { FAKE_FIELD(GetObjectRequest, String, Bucket) FAKE_FIELD(GetObjectRequest, String, Key) };
struct HeadObjectRequest { FAKE_FIELD(HeadObjectRequest, String, Bucket) FAKE_FIELD(HeadObjectRequest, String, Key) };
struct DeleteObjectRequest { FAKE_FIELD(DeleteObjectRequest, String, Bucket) FAKE_FIELD(DeleteObjectRequest, String, Key) };
struct DeleteObjectsRequest { FAKE_FIELD(DeleteObjectsRequest, String, Bucket) FAKE_FIELD(DeleteObjectsRequest, Model::Delete, Delete) };
struct PutObjectRequest {
    FAKE_FIELD(PutObjectRequest, String, Bucket) FAKE_FIELD(PutObjectRequest, String, Key)
    void SetBody(const std::shared_ptr<IOStream> & b) { body = b; }
    void SetContentLength(long long) {}
    std::shared_ptr<IOStream> body;
};
struct ListObjectsV2Request {
    FAKE_FIELD(ListObjectsV2Request, String, Bucket) FAKE_FIELD(ListObjectsV2Request, String, Prefix)
    FAKE_FIELD(ListObjectsV2Request, String, Delimiter) FAKE_FIELD(ListObjectsV2Request, int, MaxKeys)
    FAKE_FIELD(ListObjectsV2Request, String, ContinuationToken) FAKE_FIELD(ListObjectsV2Request, String, StartAfter)
};

struct GetObjectResult {
    std::shared_ptr<std::stringstream> body = std::make_shared<std::stringstream>();
    long long length = 0;
    long long GetContentLength() const { return length; }
    std::iostream & GetBody() const { return *body; }
};
struct HeadObjectResult { long long length = 0; long long GetContentLength() const { return length; } };
struct PutObjectResult {};
struct DeleteObjectResult {};
struct DeleteObjectsResult { Vector<Error> errors; const Vector<Error> & GetErrors() const { return errors; } };
struct ListObjectsV2Result {
    Vector<Object> contents; Vector<CommonPrefix> prefixes; String next; bool truncated = false; int count = 0;
    const Vector<Object> & GetContents() const { return contents; }
    const Vector<CommonPrefix> & GetCommonPrefixes() const { return prefixes; }
    const String & GetNextContinuationToken() const { return next; }
    bool GetIsTruncated() const { return truncated; }
    int GetKeyCount() const { return count; }
};

using GetObjectOutcome = Utils::Outcome<GetObjectResult, S3Error>;
using HeadObjectOutcome = Utils::Outcome<HeadObjectResult, S3Error>;
using PutObjectOutcome = Utils::Outcome<PutObjectResult, S3Error>;
using DeleteObjectOutcome = Utils::Outcome<DeleteObjectResult, S3Error>;
using DeleteObjectsOutcome = Utils::Outcome<DeleteObjectsResult, S3Error>;
using ListObjectsV2Outcome = Utils::Outcome<ListObjectsV2Result, S3Error>;

}  // namespace Model

class S3Client {
public:
    S3Client() {}
    S3Client(const std::shared_ptr<Auth::AWSCredentialsProvider> &, const std::shared_ptr<S3EndpointProvider> &, const S3ClientConfiguration &) {}

    Model::GetObjectOutcome GetObject(const Model::GetObjectRequest & r) const {
        S3Error e; auto & s = fakeaws::store(); std::lock_guard<std::mutex> l(s.m);
        auto * b = bucket(s, r.GetBucket(), e); if(!b) return e;
        const auto k = s.hit("GET", r.GetKey());
        if(k != fakeaws::Kind::none && k != fakeaws::Kind::truncated) return failed(k);
        auto it = b->find(r.GetKey());
        if(it == b->end()) return S3Error(S3Errors::NO_SUCH_KEY, Http::HttpResponseCode::NOT_FOUND, "The specified key does not exist.");
        Model::GetObjectResult o;
        o.length = s.unknownLength && k == fakeaws::Kind::none ? -1 : (long long)it->second.size();
        const std::string data = k == fakeaws::Kind::truncated && !it->second.empty() ? it->second.substr(0, it->second.size() / 2) : it->second;
        o.body->write(data.data(), data.size());
        return o;
    }

    Model::HeadObjectOutcome HeadObject(const Model::HeadObjectRequest & r) const {
        S3Error e; auto & s = fakeaws::store(); std::lock_guard<std::mutex> l(s.m);
        auto * b = bucket(s, r.GetBucket(), e); if(!b) return e;
        if(const auto k = s.hit("HEAD", r.GetKey()); k != fakeaws::Kind::none) return failed(k);
        auto it = b->find(r.GetKey());
        if(it == b->end()) return S3Error(S3Errors::RESOURCE_NOT_FOUND, Http::HttpResponseCode::NOT_FOUND, "No response body.");
        Model::HeadObjectResult o; o.length = it->second.size();
        return o;
    }

    Model::PutObjectOutcome PutObject(const Model::PutObjectRequest & r) const {
        S3Error e; auto & s = fakeaws::store(); std::lock_guard<std::mutex> l(s.m);
        auto * b = bucket(s, r.GetBucket(), e); if(!b) return e;
        if(const auto k = s.hit("PUT", r.GetKey()); k != fakeaws::Kind::none) return failed(k);
        if(r.GetKey().empty() || r.GetKey().size() > 1024) return S3Error(S3Errors::UNKNOWN, Http::HttpResponseCode::BAD_REQUEST, "bad key");
        std::ostringstream o;
        if(r.body && r.body->peek() != std::iostream::traits_type::eof()) o << r.body->rdbuf();
        (*b)[r.GetKey()] = o.str();
        return Model::PutObjectResult();
    }

    Model::DeleteObjectOutcome DeleteObject(const Model::DeleteObjectRequest & r) const {
        S3Error e; auto & s = fakeaws::store(); std::lock_guard<std::mutex> l(s.m);
        auto * b = bucket(s, r.GetBucket(), e); if(!b) return e;
        if(const auto k = s.hit("DELETE", r.GetKey()); k != fakeaws::Kind::none) return failed(k);
        b->erase(r.GetKey());
        return Model::DeleteObjectResult();
    }

    Model::DeleteObjectsOutcome DeleteObjects(const Model::DeleteObjectsRequest & r) const {
        S3Error e; auto & s = fakeaws::store(); std::lock_guard<std::mutex> l(s.m);
        auto * b = bucket(s, r.GetBucket(), e); if(!b) return e;
        const auto & objects = r.GetDelete().GetObjects();
        const auto k = s.hit("DELETE-MANY", objects.empty() ? "" : objects[0].GetKey());
        if(k != fakeaws::Kind::none && k != fakeaws::Kind::perKey) return failed(k);
        if(objects.empty() || objects.size() > 1000) return S3Error(S3Errors::UNKNOWN, Http::HttpResponseCode::BAD_REQUEST, "MalformedXML");
        Model::DeleteObjectsResult o;
        for(std::size_t i = 0; i < objects.size(); ++i) {
            if(k == fakeaws::Kind::perKey && i == objects.size() / 2) {
                Model::Error err; err.SetKey(objects[i].GetKey()); err.SetCode("InternalError"); err.SetMessage("We encountered an internal error.");
                o.errors.push_back(err);
                continue;
            }
            b->erase(objects[i].GetKey());
        }
        return o;
    }

    Model::ListObjectsV2Outcome ListObjectsV2(const Model::ListObjectsV2Request & r) const {
        S3Error e; auto & s = fakeaws::store(); std::lock_guard<std::mutex> l(s.m);
        auto * b = bucket(s, r.GetBucket(), e); if(!b) return e;
        if(const auto k = s.hit("LIST", r.GetPrefix()); k != fakeaws::Kind::none) return failed(k);
        ++s.lists;
        const std::string & prefix = r.GetPrefix(), & delim = r.GetDelimiter();
        std::size_t most = s.page;
        if(r.MaxKeysHasBeenSet()) most = std::min<std::size_t>(most, r.GetMaxKeys());
        Model::ListObjectsV2Result o;
        // a token is the last key or common prefix of the page before
        std::string after = r.GetStartAfter();
        if(!r.GetContinuationToken().empty()) {
            if(r.GetContinuationToken().compare(0, 4, "tok:") != 0) return S3Error(S3Errors::UNKNOWN, Http::HttpResponseCode::BAD_REQUEST, "The continuation token provided is incorrect");
            after = r.GetContinuationToken().substr(4);
        }
        std::string last;
        for(auto it = b->lower_bound(prefix); it != b->end(); ++it) {
            const std::string & key = it->first;
            if(key.compare(0, prefix.size(), prefix) != 0) break;
            std::string item = key;
            bool common = false;
            if(!delim.empty()) {
                const auto p = key.find(delim, prefix.size());
                if(p != std::string::npos) { item = key.substr(0, p + delim.size()); common = true; }
            }
            if(!after.empty() && (item <= after)) continue;
            if(common && !o.prefixes.empty() && o.prefixes.back().GetPrefix() == item) continue;
            if(std::size_t(o.count) == most) { o.truncated = true; break; }
            if(common) { Model::CommonPrefix c; c.SetPrefix(item); o.prefixes.push_back(c); }
            else { Model::Object c; c.SetKey(item); o.contents.push_back(c); }
            ++o.count;
            last = item;
        }
        if(o.truncated) { o.next = "tok:" + last; ++s.truncatedLists; }
        return o;
    }

private:
    static std::map<std::string, std::string> * bucket(fakeaws::Store & s, const std::string & name, S3Error & e) {
        if(!s.initialized) throw std::logic_error("harness: request before Aws::InitAPI");
        auto it = s.buckets.find(name);
        if(it != s.buckets.end()) return &it->second;
        e = S3Error(S3Errors::NO_SUCH_BUCKET, Http::HttpResponseCode::NOT_FOUND, "The specified bucket does not exist");
        return nullptr;
    }
    static S3Error failed(fakeaws::Kind k) {
        using fakeaws::Kind;
        switch(k) {
            case Kind::throttled: return S3Error(S3Errors::SLOW_DOWN, Http::HttpResponseCode::SERVICE_UNAVAILABLE, "Please reduce your request rate.");
            case Kind::denied: return S3Error(S3Errors::ACCESS_DENIED, Http::HttpResponseCode::FORBIDDEN, "Access Denied");
            case Kind::network: return S3Error(S3Errors::NETWORK_CONNECTION, Http::HttpResponseCode::REQUEST_NOT_MADE, "curlCode: 28, Timeout was reached");
            default: return S3Error(S3Errors::INTERNAL_FAILURE, Http::HttpResponseCode::INTERNAL_SERVER_ERROR, "We encountered an internal error. Please try again.");
        }
    }
};

#undef FAKE_FIELD

}  // namespace S3
}  // namespace Aws
