"""A simulated S3 bucket: strongly consistent, versioned, with multipart uploads.

Every call takes simulated time (so other processes run meanwhile), may be the point where the calling
process dies, and may fail before or after it took effect."""
import io, datetime, hashlib
from . import kernel as kn
from .kernel import SimKilled


class ClientError(Exception):
    def __init__(self, code, op):
        super().__init__('An error occurred (%s) when calling the %s operation' % (code, op))
        self.response = {'Error': {'Code': code, 'Message': code}, 'ResponseMetadata': {'HTTPStatusCode': 404 if code.startswith('NoSuch') else 503}}
        self.operation_name = op


class NoSuchKey(ClientError): pass
class NoSuchBucket(ClientError): pass
class NoSuchUpload(ClientError): pass
class EndpointConnectionError(Exception): pass
class ResponseStreamingError(Exception): pass


class Exceptions:
    ClientError = ClientError; NoSuchKey = NoSuchKey; NoSuchBucket = NoSuchBucket; NoSuchUpload = NoSuchUpload


class Body:
    """StreamingBody: reads may fail part way"""
    def __init__(self, s3, proc, data):
        self.s3 = s3; self.b = io.BytesIO(data); self.bad = False

    def read(self, amt=None):
        if self.bad: raise ResponseStreamingError('An error occurred while reading from response stream')
        e = self.s3.k.op('s3.read', 'net', amt)
        if e is not None:
            self.bad = True
            if e == 'EIO': raise ResponseStreamingError('An error occurred while reading from response stream')
            raise OSError(104, 'Connection reset by peer')
        return self.b.read(-1 if amt is None else amt)

    def iter_chunks(self, chunk_size=1024):
        while True:
            c = self.read(chunk_size)
            if c == b'': break
            yield c
    __iter__ = iter_chunks
    def readlines(self): return io.BytesIO(self.read()).readlines()
    def close(self): pass
    def __enter__(self): return self
    def __exit__(self, *a): pass


class S3:
    def __init__(self, k, bucket='bkt', page=1000, status='Enabled', latency=0.02):
        self.k = k; self.bucket = bucket; self.page = page; self.status = status; self.latency = latency
        self.objs = {}             # key -> [ [version id, bytes or None (delete marker), time] ]  oldest first
        self.uploads = {}          # id -> [key, {n: bytes}, time]
        self.n = 0
        self.seen = []             # callbacks(key, bytes): an object version now exists
        self.sent = []             # callbacks(key, bytes): bytes left the machine (even if never completed)
        self.calls = 0
        k.s3 = self

    def client(self, proc, kw): return Client(self, proc)

    # -- direct access for the harness (no simulated time)
    def get(self, key):
        v = self.objs.get(key)
        return v[-1][1] if v else None
    def keys(self, prefix=''): return sorted(x for x in self.objs if x.startswith(prefix) and self.get(x) is not None)
    def set(self, key, data):
        self.n += 1
        self.objs.setdefault(key, []).append(['v%d' % self.n, data, self.k.now])
    def put(self, key, data):
        self.set(key, data)
        for f in self.seen: f(key, data)
        return self.objs[key][-1]


class Client:
    def __init__(self, s3, proc):
        self.s3 = s3; self.proc = proc; self.exceptions = Exceptions; self.meta = None

    def _call(self, op, fn, detail=None):
        s = self.s3; k = s.k
        s.calls += 1
        e = k.op('s3.' + op, 'net', detail)
        k.sleep(s.latency * (1 + k.choose('s3lat', 4, 0.2) * 10))
        if e is not None and k.choose('s3when', 2, 0.5) == 0: self._fail(op, e)
        r = fn()
        k.log('s3.%s done %s' % (op, detail))
        if e is not None: self._fail(op, e)
        e = k.op('s3.' + op + '.reply', 'x')       # the process may die before it learns of it
        if e is not None: self._fail(op, e)
        return r

    def _fail(self, op, e):
        if e == 'EIO': raise ClientError(['ServiceUnavailable', 'InternalError', 'SlowDown', 'RequestTimeout'][self.s3.calls % 4], op)
        if self.s3.calls % 2: raise EndpointConnectionError('Could not connect to the endpoint URL')
        raise OSError(104, 'Connection reset by peer')

    def _bucket(self, b, op):
        if b != self.s3.bucket: raise NoSuchBucket('NoSuchBucket', op)

    # -- bucket
    def get_bucket_versioning(self, Bucket):
        self._bucket(Bucket, 'GetBucketVersioning')
        return self._call('get_bucket_versioning', lambda: {'Status': self.s3.status})

    def put_bucket_versioning(self, Bucket, VersioningConfiguration):
        def go(): self.s3.status = VersioningConfiguration['Status']
        return self._call('put_bucket_versioning', go)

    # -- listing
    def _list(self, op, prefix, after, maxk):
        def go():
            s = self.s3
            ks = [x for x in s.keys(prefix or '') if x > (after or '')]
            n = min(maxk or 1000, s.page)
            out = [{'Key': x, 'Size': len(s.get(x)), 'ETag': '"%s"' % hashlib.md5(s.get(x)).hexdigest(),
                    'LastModified': datetime.datetime(2020, 1, 1), 'StorageClass': 'STANDARD'} for x in ks[:n]]
            return out, len(ks) > n
        return self._call(op, go, '%s after %s' % (prefix, after))

    def list_objects(self, Bucket, Prefix='', Marker='', MaxKeys=1000, Delimiter=None, EncodingType=None):
        self._bucket(Bucket, 'ListObjects')
        if Delimiter: raise NotImplementedError('Delimiter')
        out, more = self._list('list_objects', Prefix, Marker, MaxKeys)
        r = {'IsTruncated': more, 'Marker': Marker, 'Prefix': Prefix, 'MaxKeys': MaxKeys, 'Name': Bucket}
        if out: r['Contents'] = out
        return r

    def list_objects_v2(self, Bucket, Prefix='', ContinuationToken=None, StartAfter='', MaxKeys=1000, Delimiter=None, **kw):
        self._bucket(Bucket, 'ListObjectsV2')
        if Delimiter: raise NotImplementedError('Delimiter')
        out, more = self._list('list_objects_v2', Prefix, ContinuationToken or StartAfter, MaxKeys)
        r = {'IsTruncated': more, 'KeyCount': len(out), 'Prefix': Prefix, 'Name': Bucket}
        if out: r['Contents'] = out
        if more: r['NextContinuationToken'] = out[-1]['Key']
        return r

    def get_paginator(self, name):
        c = self
        class P:
            def paginate(self, **kw):
                while True:
                    r = getattr(c, name)(**kw)
                    yield r
                    if not r.get('IsTruncated'): return
                    if name == 'list_objects_v2': kw['ContinuationToken'] = r['NextContinuationToken']
                    elif name == 'list_objects': kw['Marker'] = r['Contents'][-1]['Key']
                    else: return
        return P()

    # -- objects
    def _find(self, key, version, op):
        v = self.s3.objs.get(key, [])
        if version is not None: v = [x for x in v if x[0] == version]
        if not v or v[-1][1] is None: raise NoSuchKey('NoSuchKey', op)
        return v[-1]

    def get_object(self, Bucket, Key, VersionId=None):
        self._bucket(Bucket, 'GetObject')
        def go():
            v = self._find(Key, VersionId, 'GetObject')
            return {'VersionId': v[0], 'Body': Body(self.s3, self.proc, v[1]), 'ContentLength': len(v[1]), 'ContentType': 'binary/octet-stream',
                    'Metadata': {}, 'LastModified': datetime.datetime(2020, 1, 1), 'ETag': '"%s"' % hashlib.md5(v[1]).hexdigest()}
        return self._call('get_object', go, Key)

    def head_object(self, Bucket, Key, VersionId=None):
        self._bucket(Bucket, 'HeadObject')
        def go():
            try: v = self._find(Key, VersionId, 'HeadObject')
            except NoSuchKey: raise ClientError('404', 'HeadObject')
            return {'VersionId': v[0], 'ContentLength': len(v[1]), 'Metadata': {}, 'LastModified': datetime.datetime(2020, 1, 1)}
        return self._call('head_object', go, Key)

    def put_object(self, Bucket, Key, Body=b'', Metadata=None, **kw):
        self._bucket(Bucket, 'PutObject')
        if hasattr(Body, 'read'): Body = Body.read()
        if isinstance(Body, str): Body = Body.encode('utf8')
        for f in self.s3.sent: f(Key, bytes(Body))
        return self._call('put_object', lambda: {'VersionId': self.s3.put(Key, bytes(Body))[0], 'ETag': '"x"'}, '%s %d' % (Key, len(Body)))

    def delete_object(self, Bucket, Key, VersionId=None):
        def go():
            s = self.s3
            if VersionId is None: s.set(Key, None)
            else: s.objs[Key] = [x for x in s.objs.get(Key, []) if x[0] != VersionId]
            return {}
        return self._call('delete_object', go, Key)

    # -- multipart uploads
    def create_multipart_upload(self, Bucket, Key, **kw):
        self._bucket(Bucket, 'CreateMultipartUpload')
        for f in self.s3.sent: f(Key, b'')
        def go():
            self.s3.n += 1
            u = 'up%d' % self.s3.n
            self.s3.uploads[u] = [Key, {}, self.s3.k.now]
            return {'UploadId': u, 'Key': Key, 'Bucket': Bucket}
        return self._call('create_multipart_upload', go, Key)

    def _up(self, uid, op):
        if uid not in self.s3.uploads: raise NoSuchUpload('NoSuchUpload', op)
        return self.s3.uploads[uid]

    def upload_part(self, Bucket, Key, PartNumber, UploadId, Body=b''):
        if hasattr(Body, 'read'): Body = Body.read()
        Body = bytes(Body)
        for f in self.s3.sent: f(Key, Body)
        def go():
            self._up(UploadId, 'UploadPart')[1][PartNumber] = Body
            return {'ETag': '"%s"' % hashlib.md5(Body).hexdigest()}
        return self._call('upload_part', go, '%s part %d: %d' % (Key, PartNumber, len(Body)))

    def complete_multipart_upload(self, Bucket, Key, UploadId, MultipartUpload):
        def go():
            u = self._up(UploadId, 'CompleteMultipartUpload')
            parts = MultipartUpload['Parts']
            if not parts: raise ClientError('MalformedXML', 'CompleteMultipartUpload')
            nums = [p['PartNumber'] for p in parts]
            if nums != sorted(set(nums)): raise ClientError('InvalidPartOrder', 'CompleteMultipartUpload')
            data = b''
            for p in parts:
                b = u[1].get(p['PartNumber'])
                if b is None or p['ETag'] != '"%s"' % hashlib.md5(b).hexdigest(): raise ClientError('InvalidPart', 'CompleteMultipartUpload')
                data += b
            del self.s3.uploads[UploadId]
            v = self.s3.put(u[0], data)
            return {'VersionId': v[0], 'Key': Key, 'ETag': '"x"'}
        return self._call('complete_multipart_upload', go, Key)

    def abort_multipart_upload(self, Bucket, Key, UploadId):
        def go():
            self._up(UploadId, 'AbortMultipartUpload')
            del self.s3.uploads[UploadId]
            return {}
        return self._call('abort_multipart_upload', go, Key)

    def list_multipart_uploads(self, Bucket, **kw):
        def go():
            us = sorted(self.s3.uploads.items())
            r = {'IsTruncated': False}
            if us: r['Uploads'] = [{'Key': u[0], 'UploadId': i, 'Initiated': datetime.datetime(2020, 1, 1)} for i, u in us]
            return r
        return self._call('list_multipart_uploads', go)

    def list_object_versions(self, Bucket, **kw):
        def go():
            r = {'IsTruncated': False, 'Versions': [], 'DeleteMarkers': []}
            for key in sorted(self.s3.objs):
                for v in self.s3.objs[key]: r['Versions' if v[1] is not None else 'DeleteMarkers'].append({'Key': key, 'VersionId': v[0], 'IsLatest': v is self.s3.objs[key][-1]})
            return r
        return self._call('list_object_versions', go)
