"""In-memory Google Cloud Storage and S3 services, answering the real client libraries below their HTTP connection pools.

`Service.answer` decides every request: it may let it through, refuse it, or break the connection. Time the clients
spend waiting is virtual.
"""
import base64
import hashlib
import io
import json
import os
import re
import struct
import time
import urllib.parse
from xml.sax.saxutils import escape

import google_crc32c
import urllib3.connectionpool
from urllib3.response import HTTPResponse

from mcheck import env

GCS_HOST, S3_HOST = "gcs.invalid", "s3.invalid"


class Service:
    def __init__(self, kind, page=1000, answer=None):
        self.kind = kind
        self.page = page
        self.answer = answer  # answer(number, method, what) -> None | "reset" | "lost" | "short" | status
        self.buckets = {}
        self.requests = []
        self.pending = {}
        self.order = []

    def put(self, name, data):
        bucket, key = name.split("/", 1)
        self.buckets.setdefault(bucket, {})[key] = bytes(data)
        self.order.append(name)

    def names(self):
        return sorted(f"{b}/{k}" for b, d in self.buckets.items() for k in d)

    def get(self, name):
        bucket, key = name.split("/", 1)
        return self.buckets[bucket][key]

    # -- transport
    def handle(self, method, url, body, headers):
        if body is not None and hasattr(body, "read"):
            body = body.read()
        elif body is not None and not isinstance(body, (bytes, bytearray)):
            body = body.encode() if isinstance(body, str) else b"".join(body)
        body = bytes(body or b"")
        parts = urllib.parse.urlsplit(url)
        query = dict(urllib.parse.parse_qsl(parts.query, keep_blank_values=True))
        n = len(self.requests)
        self.requests.append((method, urllib.parse.unquote(parts.path), query))
        verdict = self.answer(n, method, (parts.path, query)) if self.answer else None
        if verdict == "reset":
            raise ConnectionResetError(104, "Connection reset by peer")
        if isinstance(verdict, int):
            return self.refuse(verdict)
        status, head, data = (self.gcs if self.kind == "gcs" else self.s3)(method, parts.path, query, body, {k.lower(): v for k, v in dict(headers or {}).items()})
        if verdict == "lost":
            raise ConnectionResetError(104, "Connection reset by peer")
        if verdict == "short" and data:
            return status, head, data, data[: len(data) // 2]
        return status, head, data, data

    def refuse(self, status):
        if self.kind == "gcs":
            data = json.dumps({"error": {"code": status, "message": "refused"}}).encode()
            return status, {"content-type": "application/json"}, data, data
        code = {403: "AccessDenied", 404: "NoSuchKey", 429: "TooManyRequests"}.get(status, "InternalError")
        data = self.s3error(code)
        return status, {"content-type": "application/xml"}, data, data

    @staticmethod
    def s3error(code, bucket="", key=""):
        return f"<?xml version='1.0'?><Error><Code>{code}</Code><Message>m</Message><Resource>r</Resource><RequestId>1</RequestId><HostId>h</HostId><BucketName>{escape(bucket)}</BucketName><Key>{escape(key)}</Key></Error>".encode()

    # -- Google Cloud Storage JSON API
    def meta(self, bucket, key):
        data = self.buckets[bucket][key]
        crc = base64.b64encode(struct.pack(">I", google_crc32c.value(data))).decode()
        return {"kind": "storage#object", "name": key, "bucket": bucket, "size": str(len(data)), "generation": "1", "metageneration": "1",
                "md5Hash": base64.b64encode(hashlib.md5(data).digest()).decode(), "crc32c": crc, "contentType": "application/octet-stream"}

    def gcs(self, method, path, query, body, headers):
        def reply(status, obj, extra=()):
            return status, {"content-type": "application/json; charset=UTF-8", **dict(extra)}, json.dumps(obj).encode()

        missing = reply(404, {"error": {"code": 404, "message": "not found"}})
        m = re.fullmatch(r"/(upload/|download/)?storage/v1/b/([^/]+)(/o(?:/(.*))?)?", path)
        if not m:
            return reply(400, {"error": {"code": 400, "message": path}})
        mode, bucket, o, key = m.group(1), urllib.parse.unquote(m.group(2)), m.group(3), m.group(4)
        if bucket not in self.buckets:
            return missing
        key = urllib.parse.unquote(key) if key else None
        objects = self.buckets[bucket]
        if mode == "upload/" and method == "POST" and query.get("uploadType") == "multipart":
            boundary = re.search(rb'boundary="?([^";]+)', headers["content-type"].encode() if isinstance(headers["content-type"], str) else headers["content-type"]).group(1)
            pieces = body.split(b"--" + boundary)
            info = json.loads(pieces[1].split(b"\r\n\r\n", 1)[1])
            data = pieces[2].split(b"\r\n\r\n", 1)[1]
            if len(pieces) > 4:  # the data holds the boundary: cannot be, it is random
                raise AssertionError("boundary in data")
            data = data[: -len(b"\r\n")]
            return self.stored(bucket, info["name"], data, reply)
        if mode == "upload/" and method == "POST":
            info = json.loads(body or b"{}")
            token = f"t{len(self.pending)}"
            self.pending[token] = [bucket, info.get("name", query.get("name")), b""]
            return 200, {"location": f"http://{GCS_HOST}/upload/storage/v1/b/{bucket}/o?uploadType=resumable&upload_id={token}"}, b""
        if mode == "upload/" and method == "PUT":
            up = self.pending[query["upload_id"]]
            rng = re.fullmatch(r"bytes (?:(\d+)-(\d+)|\*)/(\d+|\*)", headers["content-range"])
            up[2] += body
            if rng.group(3) != "*" and len(up[2]) >= int(rng.group(3)):
                return self.stored(up[0], up[1], up[2], reply)
            return 308, {"range": f"bytes=0-{len(up[2]) - 1}"}, b""
        if o is None:
            return reply(200, {"kind": "storage#bucket", "id": bucket, "name": bucket})
        if key is None:
            names = sorted(k for k in objects if k.startswith(query.get("prefix", "")))
            if "delimiter" in query and query["delimiter"]:
                d, pre = query["delimiter"], len(query.get("prefix", ""))
                names = [k for k in names if d not in k[pre:]]
            start = int(query.get("pageToken", "0"))
            out = {"kind": "storage#objects", "items": [self.meta(bucket, k) for k in names[start : start + self.page]]}
            if start + self.page < len(names):
                out["nextPageToken"] = str(start + self.page)
            return reply(200, out)
        if key not in objects:
            return missing
        if mode == "download/" or query.get("alt") == "media":
            info = self.meta(bucket, key)
            data = objects[key]
            head = {"content-type": "application/octet-stream", "x-goog-hash": f"crc32c={info['crc32c']},md5={info['md5Hash']}"}
            rng = re.fullmatch(r"bytes=(\d+)-(\d*)", headers.get("range", ""))
            if rng:
                a, b = int(rng.group(1)), int(rng.group(2)) if rng.group(2) else len(data) - 1
                if a >= len(data):
                    return 416, {"content-range": f"bytes */{len(data)}"}, b""
                head["content-range"] = f"bytes {a}-{min(b, len(data) - 1)}/{len(data)}"
                return 206, head, data[a : b + 1]
            return 200, head, data
        return reply(200, self.meta(bucket, key))

    def stored(self, bucket, key, data, reply):
        self.put(f"{bucket}/{key}", data)
        return reply(200, self.meta(bucket, key))

    # -- S3
    def s3(self, method, path, query, body, headers):
        xml = {"content-type": "application/xml"}
        bucket, _, key = path.lstrip("/").partition("/")
        key = urllib.parse.unquote(key)
        if bucket not in self.buckets:
            return 404, xml, self.s3error("NoSuchBucket", bucket)
        objects = self.buckets[bucket]
        if "location" in query:
            return 200, xml, b'<?xml version="1.0" encoding="UTF-8"?><LocationConstraint xmlns="http://s3.amazonaws.com/doc/2006-03-01/"></LocationConstraint>'
        if not key and method == "GET":
            pre, delim = query.get("prefix", ""), query.get("delimiter", "")
            entries = []
            for k in sorted(objects):
                if not k.startswith(pre):
                    continue
                if delim and delim in k[len(pre) :]:
                    e = ("p", pre + k[len(pre) :].split(delim)[0] + delim)
                else:
                    e = ("k", k)
                if e not in entries:
                    entries.append(e)
            start = query.get("continuation-token") or query.get("start-after") or query.get("marker") or ""
            after = [e for e in entries if e[1] > start]
            page, more = after[: self.page], len(after) > self.page
            enc = (lambda s: urllib.parse.quote(s, safe="")) if query.get("encoding-type") == "url" else escape
            out = ['<?xml version="1.0" encoding="UTF-8"?><ListBucketResult xmlns="http://s3.amazonaws.com/doc/2006-03-01/">', f"<Name>{bucket}</Name><Prefix>{enc(pre)}</Prefix><IsTruncated>{str(more).lower()}</IsTruncated>"]
            if query.get("encoding-type"):
                out.append("<EncodingType>url</EncodingType>")
            if more:
                out.append(f"<NextContinuationToken>{escape(page[-1][1])}</NextContinuationToken>")
            for t, k in page:
                if t == "k":
                    d = objects[k]
                    out.append(f"<Contents><Key>{enc(k)}</Key><LastModified>2020-01-01T00:00:00.000Z</LastModified><ETag>&quot;{hashlib.md5(d).hexdigest()}&quot;</ETag><Size>{len(d)}</Size><StorageClass>STANDARD</StorageClass></Contents>")
                else:
                    out.append(f"<CommonPrefixes><Prefix>{enc(k)}</Prefix></CommonPrefixes>")
            return 200, xml, "".join(out + ["</ListBucketResult>"]).encode()
        if method == "POST" and "uploads" in query:
            token = f"t{len(self.pending)}"
            self.pending[token] = {}
            return 200, xml, f"<?xml version='1.0'?><InitiateMultipartUploadResult xmlns='http://s3.amazonaws.com/doc/2006-03-01/'><Bucket>{bucket}</Bucket><Key>{escape(key)}</Key><UploadId>{token}</UploadId></InitiateMultipartUploadResult>".encode()
        if method == "PUT" and "uploadId" in query:
            self.pending[query["uploadId"]][int(query["partNumber"])] = body
            return 200, {"etag": '"' + hashlib.md5(body).hexdigest() + '"'}, b""
        if method == "POST" and "uploadId" in query:
            numbers = [int(n) for n in re.findall(rb"<PartNumber>(\d+)</PartNumber>", body)]
            pieces = self.pending.pop(query["uploadId"])
            self.put(f"{bucket}/{key}", b"".join(pieces[n] for n in numbers))
            return 200, xml, f"<?xml version='1.0'?><CompleteMultipartUploadResult xmlns='http://s3.amazonaws.com/doc/2006-03-01/'><Location>l</Location><Bucket>{bucket}</Bucket><Key>{escape(key)}</Key><ETag>&quot;e&quot;</ETag></CompleteMultipartUploadResult>".encode()
        if method == "DELETE" and "uploadId" in query:
            self.pending.pop(query["uploadId"], None)
            return 204, {}, b""
        if method == "PUT":
            if headers.get("x-amz-content-sha256", "").startswith("STREAMING"):
                raise AssertionError("streaming signature")
            self.put(f"{bucket}/{key}", body)
            return 200, {"etag": '"' + hashlib.md5(body).hexdigest() + '"'}, b""
        if key not in objects:
            return 404, xml, self.s3error("NoSuchKey", bucket, key)
        data = objects[key]
        head = {"etag": '"' + hashlib.md5(data).hexdigest() + '"', "content-type": "application/octet-stream", "last-modified": "Wed, 01 Jan 2020 00:00:00 GMT"}
        if method == "HEAD":
            return 200, {**head, "content-length": str(len(data))}, b""
        return 200, head, data


class Raw(io.BytesIO):
    """the socket side of a response"""


SERVICES = {}


def _make_request(self, conn, method, url, body=None, headers=None, retries=None, timeout=None, chunked=False, response_conn=None, preload_content=True, decode_content=True, enforce_content_length=True):
    service = SERVICES[self.host]
    full = url
    status, head, whole, sent = service.handle(method, full, body, headers)
    head = {**head}
    head.setdefault("content-length", str(len(whole)))
    response = HTTPResponse(body=Raw(sent), headers=head, status=status, version=11, version_string="HTTP/1.1", reason="", preload_content=preload_content, decode_content=decode_content, connection=response_conn, pool=self, request_method=method, request_url=url, enforce_content_length=enforce_content_length, retries=retries)
    return response


slept = [0.0]


def _sleep(seconds):
    slept[0] += seconds
    env.clock_set(env.clock_get() + int(seconds * env.NS))


def install():
    """nothing leaves the process: a host that is not a service here is a KeyError"""
    os.environ["STORAGE_EMULATOR_HOST"] = f"http://{GCS_HOST}"
    os.environ["GOOGLE_CLOUD_PROJECT"] = "project"
    os.environ["NO_GCE_CHECK"] = "true"
    urllib3.connectionpool.HTTPConnectionPool._make_request = _make_request
    time.sleep = _sleep


def serve(kind, **kw):
    s = Service(kind, **kw)
    SERVICES[GCS_HOST if kind == "gcs" else S3_HOST] = s
    slept[0] = 0.0
    return s
