"""A scripted mesh behind the HTTP client library."""
import json
import threading

import requests
import requests_mock
from hypothesis import strategies as st

from . import gen

BASE = "http://127.0.0.1:13330/"

# what the mesh answers: ["ok"], or how it fails
GOOD = st.sampled_from([["ok"], ["ok"], ["ok extra"]])
BAD = st.one_of(
    st.tuples(st.just("status"), st.sampled_from([201, 204, 299, 301, 302, 307, 400, 401, 403, 404, 408, 409, 418, 425, 429, 500, 502, 503, 504])).map(list),
    st.tuples(st.just("success"), st.sampled_from([False, None, "true", "True", 1, 0, "", [], [True]])).map(list),
    st.sampled_from([["missing"], ["empty"], ["text"], ["list"], ["refused"], ["timeout"], ["failed with message"],
                     ["true"], ["null"]]))
ANSWER = gen.mix(GOOD, GOOD, BAD)


def is_good(answer):
    return answer[0] in ("ok", "ok extra")


class Mesh:
    """answers come from `decide(path, body)`; every request is recorded"""

    def __init__(self, decide=None):
        self.posts = []
        self.decide = decide or (lambda path, body: ["ok"])
        self.lock = threading.Lock()
        self.mock = requests_mock.Mocker()

    def __enter__(self):
        self.mock.start()
        self.mock.register_uri(requests_mock.ANY, requests_mock.ANY, text=self._answer)
        return self

    def __exit__(self, *a):
        self.mock.stop()

    def take(self):
        with self.lock:
            p, self.posts = self.posts, []
        return p

    def _answer(self, request, context):
        try:
            body = json.loads(request.body) if request.body is not None else None
        except ValueError:
            body = ("not json", request.body)
        if not request.url.startswith(BASE) or request.method != "POST":
            path = (request.method, request.url)
        else:
            path = request.url[len(BASE):]
        with self.lock:
            self.posts.append((path, body))
            a = self.decide(path, body)
        kind = a[0]
        context.status_code = 200
        context.headers["Content-Type"] = "application/json"
        if kind == "ok":
            return json.dumps(dict(success=True))
        if kind == "ok extra":
            return json.dumps(dict(success=True, errorMessage="none", datas=["127.0.0.1:12200"]))
        if kind == "status":
            context.status_code = a[1]
            return json.dumps(dict(success=True))
        if kind == "success":
            return json.dumps(dict(success=a[1]))
        if kind == "missing":
            return json.dumps(dict(result="ok"))
        if kind == "failed with message":
            return json.dumps(dict(success=False, errorMessage="no such service"))
        if kind == "refused":
            raise requests.exceptions.ConnectionError("refused")
        if kind == "timeout":
            raise requests.exceptions.ReadTimeout("timeout")
        return dict(empty="", text="<html>ok</html>", list="[true]", true="true", null="null")[kind]
