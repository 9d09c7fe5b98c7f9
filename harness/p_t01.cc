// LIBS: fcp_tracing
// T01: trace records keep span nesting, order and payload.
#include <sys/wait.h>
#include <unistd.h>

#include <fstream>
#include <map>
#include <memory>
#include <regex>
#include <set>
#include <sstream>
#include <string>
#include <thread>
#include <vector>

#include "fcp/tracing/scoped_tracing_recorder.h"
#include "fcp/tracing/text_tracing_recorder.h"
#include "fcp/tracing/tracing_context_utils.h"
#include "fcp/tracing/tracing_span.h"
#include "google/protobuf/descriptor.pb.h"
#include "google/protobuf/dynamic_message.h"
#include "google/protobuf/timestamp.pb.h"
#include "pbt/pbt.h"
#include "verif/trace.h"

namespace {

using fcp::TracingSpanRef;

// A program is a tree of steps. Spans are numbered in order of creation.
struct Step {
  enum Kind { kEvent, kScoped, kUnscoped, kEndUnscoped, kThread } kind = kEvent;
  int type = 0;      // which table
  int num = 0;
  std::string word;
  int under = -1;    // span to use explicitly, -1: the current one
  int span = -1;     // number of the span this step creates or ends
  std::vector<Step> body;
};

struct Gen {
  pbt::Src& s;
  int spans = 0;
  int budget;
  bool threads_need_install;
  std::vector<int> open_unscoped;
  bool cross_thread = false, explicit_parent = false;

  void Payload(Step* st) {
    st->num = s.range(1, 1 << 30) * (s.flip() ? 1 : -1);
    st->word = s.ident(8);
  }

  std::vector<Step> Body(int depth) {
    std::vector<Step> out;
    int n = s.small(0, 5);
    for (int i = 0; i < n && budget > 0; ++i) {
      --budget;
      Step st;
      int k = s.weighted({5, depth < 5 ? 4 : 0, 2, open_unscoped.empty() ? 0 : 1,
                          depth < 5 ? 1 : 0});
      st.kind = static_cast<Step::Kind>(k);
      Payload(&st);
      if (k <= 2 && spans > 0 && s.chance(1, 3)) {
        st.under = s.range(0, spans - 1);
        explicit_parent = true;
      }
      switch (st.kind) {
        case Step::kEvent:
          st.type = s.range(0, 2);
          break;
        case Step::kScoped:
          st.type = s.range(0, 1);
          st.span = spans++;
          st.body = Body(depth + 1);
          break;
        case Step::kUnscoped:
          st.type = s.range(0, 1);
          st.span = spans++;
          open_unscoped.push_back(st.span);
          break;
        case Step::kEndUnscoped: {
          size_t j = s.draw(open_unscoped.size());
          st.span = open_unscoped[j];
          open_unscoped.erase(open_unscoped.begin() + j);
          break;
        }
        case Step::kThread:
          cross_thread = true;
          st.body = Body(depth + 1);
          break;
      }
      out.push_back(std::move(st));
    }
    return out;
  }
};

void Print(const std::vector<Step>& body, std::ostream& os, int depth) {
  static const char* kinds[] = {"event", "span", "unscoped", "end", "thread"};
  for (const Step& st : body) {
    os << std::string(depth * 2, ' ') << kinds[st.kind] << " type " << st.type
       << " num " << st.num << " word " << st.word;
    if (st.span >= 0) os << " span#" << st.span;
    if (st.under >= 0) os << " under#" << st.under;
    os << "\n";
    Print(st.body, os, depth + 1);
  }
}

// One expected line; span numbers are translated through what is observed.
struct Line {
  char kind;  // B, E, T
  int span;   // the span begun, ended or traced into; -1 root
  int parent = -1;
  std::string name;
  std::string payload;
  std::string severity;
};

std::string SpanName(const Step& st) { return st.type == 0 ? "VSpan" : "VPlainSpan"; }
std::string SpanPayload(const Step& st) {
  return st.type == 0 ? "{ num: " + std::to_string(st.num) + ", word: \"" +
                            st.word + "\" }"
                      : "{  }";
}

// What the recorder must write for the program.
void Model(const std::vector<Step>& body, int top, std::map<int, Step>* open,
           std::vector<Line>* out) {
  for (const Step& st : body) {
    int parent = st.under >= 0 ? st.under : top;
    switch (st.kind) {
      case Step::kEvent: {
        Line l{'T', parent};
        if (st.type == 0) {
          l.name = "VInfo";
          l.severity = "INFO";
          l.payload = "{ num: " + std::to_string(st.num) + ", word: \"" +
                      st.word + "\" }";
        } else if (st.type == 1) {
          l.name = "VWarning";
          l.severity = "WARNING";
          l.payload = "{ big: " +
                      std::to_string(static_cast<uint64_t>(st.num)) + " }";
        } else {
          l.name = "VError";
          l.severity = "ERROR";
          l.payload = "{ word: \"" + st.word + "\" }";
        }
        out->push_back(l);
        break;
      }
      case Step::kScoped: {
        out->push_back({'B', st.span, parent, SpanName(st), SpanPayload(st)});
        Model(st.body, st.span, open, out);
        out->push_back({'E', st.span, -1, SpanName(st), SpanPayload(st)});
        break;
      }
      case Step::kUnscoped:
        out->push_back({'B', st.span, parent, SpanName(st), SpanPayload(st)});
        (*open)[st.span] = st;
        break;
      case Step::kEndUnscoped: {
        Step o = (*open)[st.span];
        out->push_back({'E', st.span, -1, SpanName(o), SpanPayload(o)});
        open->erase(st.span);
        break;
      }
      case Step::kThread:
        Model(st.body, -1, open, out);
        break;
    }
  }
}

// Runs the program against the real API.
struct Exec {
  fcp::TextTracingRecorder* recorder;
  bool local;
  std::vector<std::unique_ptr<TracingSpanRef>> refs;
  std::map<int, std::unique_ptr<fcp::tracing_internal::TracingSpanBase>> unscoped;

  void Event(const Step& st) {
    if (st.under >= 0) {
      TracingSpanRef ref = *refs[st.under];
      if (st.type == 0) fcp::Trace<VInfo>(ref, st.num, st.word);
      if (st.type == 1) fcp::Trace<VWarning>(ref, static_cast<uint64_t>(st.num));
      if (st.type == 2) fcp::Trace<VError>(ref, st.word);
    } else {
      if (st.type == 0) fcp::Trace<VInfo>(st.num, st.word);
      if (st.type == 1) fcp::Trace<VWarning>(static_cast<uint64_t>(st.num));
      if (st.type == 2) {
        fcp::Error e = fcp::TraceError<VError>(st.word);
        (void)e;
      }
    }
  }
  template <typename S>
  void Inside(S& span, const Step& st) {
    refs[st.span] = std::make_unique<TracingSpanRef>(span.Ref());
    Run(st.body);
  }
  void Run(const std::vector<Step>& body) {
    for (const Step& st : body) {
      switch (st.kind) {
        case Step::kEvent:
          Event(st);
          break;
        case Step::kScoped:
          if (st.under >= 0) {
            TracingSpanRef ref = *refs[st.under];
            if (st.type == 0) {
              fcp::TracingSpan<VSpan> span(ref, st.num, st.word);
              Inside(span, st);
            } else {
              fcp::TracingSpan<VPlainSpan> span(ref);
              Inside(span, st);
            }
          } else if (st.type == 0) {
            fcp::TracingSpan<VSpan> span(st.num, st.word);
            Inside(span, st);
          } else {
            fcp::TracingSpan<VPlainSpan> span;
            Inside(span, st);
          }
          break;
        case Step::kUnscoped: {
          std::unique_ptr<fcp::tracing_internal::TracingSpanBase> p;
          if (st.under >= 0) {
            TracingSpanRef ref = *refs[st.under];
            if (st.type == 0) {
              p.reset(new fcp::UnscopedTracingSpan<VSpan>(ref, st.num, st.word));
            } else {
              p.reset(new fcp::UnscopedTracingSpan<VPlainSpan>(ref));
            }
          } else if (st.type == 0) {
            p.reset(new fcp::UnscopedTracingSpan<VSpan>(st.num, st.word));
          } else {
            p.reset(new fcp::UnscopedTracingSpan<VPlainSpan>());
          }
          refs[st.span] = std::make_unique<TracingSpanRef>(p->Ref());
          unscoped[st.span] = std::move(p);
          break;
        }
        case Step::kEndUnscoped:
          unscoped.erase(st.span);
          break;
        case Step::kThread: {
          std::thread t([&] {
            if (local) {
              fcp::ScopedTracingRecorder scoped(recorder);
              fcp::ScopedTracingRecorder again(recorder);  // may nest
              Run(st.body);
            } else {
              Run(st.body);
            }
          });
          t.join();
          break;
        }
      }
    }
  }
};

void Program(pbt::Src& s, pbt::Case& c) {
  bool local = s.flip();
  Gen g{s, 0, 40, local};
  std::vector<Step> prog = g.Body(0);
  std::vector<int> left = g.open_unscoped;
  std::string file = c.scratch() + "/trace.txt";
  c.log << (local ? "thread local" : "global") << "\n";
  Print(prog, c.log, 0);
  c.nontrivial(g.spans >= 2);
  if (g.cross_thread) c.label("other threads");
  if (g.explicit_parent) c.label("explicit parents");

  std::vector<Line> want;
  std::map<int, Step> open;
  want.push_back({'B', -1});
  Model(prog, -1, &open, &want);
  // Spans still open are closed in the order of their numbers.
  for (auto& [n, st] : open) {
    want.push_back({'E', n, -1, SpanName(st), SpanPayload(st)});
  }
  want.push_back({'E', -1});

  pid_t pid = fork();
  if (pid == 0) {
    {
      fcp::TextTracingRecorder recorder(file, absl::UTCTimeZone());
      Exec e{&recorder, local};
      e.refs.resize(g.spans);
      if (local) {
        fcp::ScopedTracingRecorder scoped(&recorder);
        e.Run(prog);
      } else {
        recorder.InstallAsGlobal();
        e.Run(prog);
        recorder.UninstallAsGlobal();
      }
      while (!e.unscoped.empty()) e.unscoped.erase(e.unscoped.begin());
      e.refs.clear();
    }
    _exit(0);
  }
  int status = 0;
  waitpid(pid, &status, 0);
  PBT_CHECK(WIFEXITED(status) && WEXITSTATUS(status) == 0,
            "the program died, status " << status);

  std::ifstream in(file);
  std::string text;
  std::map<int, std::string> ids;  // span number -> identifier
  std::set<std::string> used;
  ids[-1] = "0";
  size_t i = 0;
  static const std::regex begin(R"((\d+): BEGIN(?: (\w+) (.*))? parent: (\d+)$)");
  static const std::regex root_begin(R"((\d+): BEGIN$)");
  static const std::regex end(R"((\d+): END(?: (\w+) (.*))?$)");
  static const std::regex event(R"((\d+): (INFO|WARNING|ERROR) (\w+?) ?(\{.*\})$)");
  while (std::getline(in, text)) {
    PBT_CHECK(i < want.size(), "extra line: " << text);
    const Line& w = want[i++];
    std::smatch m;
    if (w.kind == 'B' && w.span == -1) {
      PBT_CHECK(std::regex_search(text, m, root_begin) && m[1] == "0",
                "no root begin: " << text);
    } else if (w.kind == 'B') {
      PBT_CHECK(std::regex_search(text, m, begin), "no begin: " << text);
      PBT_CHECK(m[1] != "0" && used.insert(m[1]).second,
                "identifier reused: " << text);
      ids[w.span] = m[1];
      PBT_EQ(m[2].str(), w.name, "name of a span");
      PBT_EQ(m[3].str(), w.payload, "payload of a span");
      PBT_EQ(m[4].str(), ids[w.parent], "parent of span #" << w.span);
    } else if (w.kind == 'E') {
      PBT_CHECK(std::regex_search(text, m, end), "no end: " << text);
      PBT_EQ(m[1].str(), ids[w.span], "span ended");
      PBT_EQ(m[2].str(), w.name, "name of the span ended");
      PBT_EQ(m[3].str(), w.payload, "payload of the span ended");
    } else {
      PBT_CHECK(std::regex_search(text, m, event), "no event: " << text);
      PBT_EQ(m[1].str(), ids[w.span], "span of an event");
      PBT_EQ(m[2].str(), w.severity, "severity of an event");
      PBT_EQ(m[3].str(), w.name, "name of an event");
      PBT_EQ(m[4].str(), w.payload, "payload of an event");
    }
  }
  PBT_EQ(i, want.size(), "lines written");
}

template <typename T, typename... A>
typename fcp::TracingTraits<T>::TupleType RoundTrip(A... args) {
  flatbuffers::DetachedBuffer buf = fcp::tracing_internal::BuildFlatBuffer<T>(args...);
  PBT_CHECK(*fcp::TracingTag::FromFlatbuf(buf) == fcp::TracingTraits<T>::kTag,
            "the record carries another tag");
  auto* traits = fcp::TracingTraitsBase::Lookup(*fcp::TracingTag::FromFlatbuf(buf));
  PBT_EQ(std::string(traits->Name()), std::string(fcp::TracingTraits<T>().Name()),
         "traits found by tag");
  PBT_CHECK(traits->Severity() == fcp::TracingTraits<T>::kSeverity, "severity");
  PBT_EQ(traits->TextFormat(buf), fcp::TracingTraits<T>().TextFormat(buf), "text");
  return fcp::TracingTraits<T>::MakeTuple(flatbuffers::GetRoot<T>(buf.data()));
}

void Payloads(pbt::Src& s, pbt::Case& c) {
  int8_t a = s.edgy_signed();
  uint8_t b = s.edgy(8);
  bool bc = s.flip();
  int16_t d = s.edgy_signed();
  uint16_t e = s.edgy(16);
  int32_t f = s.edgy_signed();
  uint32_t g = s.edgy(32);
  int64_t h = s.edgy_signed();
  uint64_t i = s.edgy(64);
  double j = static_cast<double>(s.edgy_signed()) / 3;
  std::string k = s.bytes(40);
  float l = static_cast<float>(s.range(-100000, 100000)) / 7;
  Mood m = s.of<Mood>({Mood_Calm, Mood_Glad, Mood_Grim});
  c.log << "a " << int(a) << " h " << h << " i " << i << " k " << pbt::Quote(k)
        << "\n";
  c.nontrivial(a != 0 && h != 0 && !k.empty());
  auto t = RoundTrip<VAll>(a, b, bc, d, e, f, g, h, i, j, k, l, m);
  PBT_CHECK(t == std::make_tuple(a, b, bc, d, e, f, g, h, i, j, k, l, m),
            "a field changed on its way through a record");
  // Fields with explicit positions are given in the order of those.
  auto o = RoundTrip<VOrder>(k, f, static_cast<int32_t>(a));
  PBT_CHECK(o == std::make_tuple(k, f, static_cast<int32_t>(a)),
            "fields with positions");
  auto* table_buf = new flatbuffers::DetachedBuffer(
      fcp::tracing_internal::BuildFlatBuffer<VOrder>(k, f, static_cast<int32_t>(a)));
  auto* tab = flatbuffers::GetRoot<VOrder>(table_buf->data());
  PBT_CHECK(tab->q()->str() == k && tab->r() == f && tab->p() == a,
            "fields with positions stored elsewhere");
  delete table_buf;
  auto old = RoundTrip<VOld>(f);
  PBT_CHECK(old == std::make_tuple(f), "field next to a deprecated one");
  PBT_CHECK(fcp::TracingTraits<VSpan>::kIsSpan && fcp::TracingTraits<VPlainSpan>::kIsSpan &&
                !fcp::TracingTraits<VInfo>::kIsSpan && !fcp::TracingTraits<VError>::kIsSpan,
            "spans and events confused");
  PBT_CHECK(fcp::TracingTraits<VInfo>::kSeverity == fcp::TracingSeverity::kInfo &&
                fcp::TracingTraits<VWarning>::kSeverity == fcp::TracingSeverity::kWarning &&
                fcp::TracingTraits<VError>::kSeverity == fcp::TracingSeverity::kError,
            "severity");
  char raw[5] = {'Z', static_cast<char>('a' + s.draw(26)), 'q', '0', 0};
  const char(&lit)[5] = raw;
  auto* unknown = fcp::TracingTraitsBase::Lookup(fcp::TracingTag(lit));
  PBT_CHECK(unknown != nullptr && std::string(unknown->Name()) != "VAll",
            "unknown tag");
}

// Context carried inside messages.
void Context(pbt::Src& s, pbt::Case& c) {
  using namespace google::protobuf;
  FileDescriptorProto fd;
  fd.set_name("m.proto");
  fd.set_syntax("proto3");
  auto* md = fd.add_message_type();
  md->set_name("M");
  auto add = [&](const std::string& n, int num, FieldDescriptorProto::Type t) {
    auto* f = md->add_field();
    f->set_name(n);
    f->set_number(num);
    f->set_type(t);
    f->set_label(FieldDescriptorProto::LABEL_OPTIONAL);
  };
  add("contents", 1, FieldDescriptorProto::TYPE_BYTES);
  int kind = s.weighted({3, 0, 1});  // contexts are binary: bytes or nothing
  if (kind == 0) add("tracing_context", s.range(2, 100), FieldDescriptorProto::TYPE_BYTES);
  DescriptorPool pool;
  const Descriptor* desc = pool.BuildFile(fd)->FindMessageTypeByName("M");
  DynamicMessageFactory factory;
  std::unique_ptr<Message> m(factory.GetPrototype(desc)->New());
  std::string contents = s.bytes(10);
  m->GetReflection()->SetString(m.get(), desc->FindFieldByName("contents"), contents);
  google::protobuf::Timestamp none =
      fcp::tracing_internal::GetContextFromMessage<google::protobuf::Timestamp>(*m);
  PBT_CHECK(none.seconds() == 0 && none.nanos() == 0, "context out of nothing");
  int n = s.small(1, 3);
  for (int i = 0; i < n; ++i) {
    google::protobuf::Timestamp ctx;
    ctx.set_seconds(s.edgy_signed());
    ctx.set_nanos(s.range(-5, 5));
    c.log << "set " << ctx.ShortDebugString() << "\n";
    fcp::tracing_internal::SetTracingContextOnMessage(ctx, *m);
    auto got = fcp::tracing_internal::GetContextFromMessage<google::protobuf::Timestamp>(*m);
    if (kind == 0) {
      PBT_EQ(got.SerializeAsString(), ctx.SerializeAsString(), "context carried");
    } else {
      PBT_EQ(got.SerializeAsString(), std::string(), "context without a place");
    }
    PBT_EQ(m->GetReflection()->GetString(*m, desc->FindFieldByName("contents")),
           contents, "contents changed");
  }
  c.nontrivial(kind == 0);
}

}  // namespace

int main(int argc, char** argv) {
  return pbt::Main(argc, argv, "T01",
                   "a program with two or more spans, a record with non-zero "
                   "fields, or a message that carries a context",
                   {{"program", Program, 4000, 60000},
                    {"payloads", Payloads, 8000, 100000},
                    {"context", Context, 1500, 20000}});
}
