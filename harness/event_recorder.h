// Recording stand-in for the event publisher.
#ifndef VERIF_EVENT_RECORDER_H_
#define VERIF_EVENT_RECORDER_H_

#include <functional>
#include <optional>
#include <string>
#include <vector>

#include "fcp/client/event_publisher.h"
#include "fcp/client/secagg_event_publisher.h"

namespace fakes {

using fcp::client::ExampleStats;
using fcp::client::NetworkStats;

class SecAggEvents : public fcp::client::SecAggEventPublisher {
 public:
  void PublishStateTransition(::fcp::secagg::ClientState, size_t,
                              size_t) override {
    transitions++;
  }
  void PublishError() override { errors++; }
  void PublishAbort(bool by_client, const std::string&) override {
    (by_client ? client_aborts : server_aborts)++;
  }
  void set_execution_session_id(int64_t) override {}
  int transitions = 0, errors = 0, client_aborts = 0, server_aborts = 0;
};

struct Event {
  std::string name, message;
  std::optional<NetworkStats> net;
  std::optional<ExampleStats> examples;
  absl::Duration took;
};

class Events : public fcp::client::EventPublisher {
 public:
  std::vector<Event> all;
  SecAggEvents secagg;
  std::function<void(const Event&)> hook;

  fcp::client::SecAggEventPublisher* secagg_event_publisher() override {
    return &secagg;
  }

  void PublishEligibilityEvalCheckin() override {
    On("PublishEligibilityEvalCheckin", "", nullptr, nullptr,
       absl::ZeroDuration());
  }
  void PublishEligibilityEvalPlanUriReceived(
      const NetworkStats& network_stats,
      absl::Duration phase_duration) override {
    On("PublishEligibilityEvalPlanUriReceived", "", &network_stats, nullptr,
       phase_duration);
  }
  void PublishEligibilityEvalPlanReceived(
      const NetworkStats& network_stats,
      absl::Duration phase_duration) override {
    On("PublishEligibilityEvalPlanReceived", "", &network_stats, nullptr,
       phase_duration);
  }
  void PublishEligibilityEvalNotConfigured(
      const NetworkStats& network_stats,
      absl::Duration phase_duration) override {
    On("PublishEligibilityEvalNotConfigured", "", &network_stats, nullptr,
       phase_duration);
  }
  void PublishEligibilityEvalRejected(const NetworkStats& network_stats,
                                      absl::Duration phase_duration) override {
    On("PublishEligibilityEvalRejected", "", &network_stats, nullptr,
       phase_duration);
  }
  void PublishCheckin() override {
    On("PublishCheckin", "", nullptr, nullptr, absl::ZeroDuration());
  }
  void PublishCheckinFinished(const NetworkStats& network_stats,
                              absl::Duration phase_duration) override {
    On("PublishCheckinFinished", "", &network_stats, nullptr, phase_duration);
  }
  void PublishRejected() override {
    On("PublishRejected", "", nullptr, nullptr, absl::ZeroDuration());
  }
  void PublishTensorFlowError(int, absl::string_view error_message) override {
    On("PublishTensorFlowError", std::string(error_message), nullptr, nullptr,
       absl::ZeroDuration());
  }
  void PublishIoError(absl::string_view error_message) override {
    On("PublishIoError", std::string(error_message), nullptr, nullptr,
       absl::ZeroDuration());
  }
  void PublishExampleSelectorError(int,
                                   absl::string_view error_message) override {
    On("PublishExampleSelectorError", std::string(error_message), nullptr,
       nullptr, absl::ZeroDuration());
  }
  void PublishInterruption(const ExampleStats& example_stats,
                           absl::Time) override {
    On("PublishInterruption", "", nullptr, &example_stats,
       absl::ZeroDuration());
  }
  void PublishTaskNotStarted(absl::string_view error_message) override {
    On("PublishTaskNotStarted", std::string(error_message), nullptr, nullptr,
       absl::ZeroDuration());
  }
  void PublishNonfatalInitializationError(
      absl::string_view error_message) override {
    On("PublishNonfatalInitializationError", std::string(error_message),
       nullptr, nullptr, absl::ZeroDuration());
  }
  void PublishFatalInitializationError(
      absl::string_view error_message) override {
    On("PublishFatalInitializationError", std::string(error_message), nullptr,
       nullptr, absl::ZeroDuration());
  }
  void PublishEligibilityEvalCheckinIoError(
      absl::string_view error_message, const NetworkStats& network_stats,
      absl::Duration phase_duration) override {
    On("PublishEligibilityEvalCheckinIoError", std::string(error_message),
       &network_stats, nullptr, phase_duration);
  }
  void PublishEligibilityEvalCheckinClientInterrupted(
      absl::string_view error_message, const NetworkStats& network_stats,
      absl::Duration phase_duration) override {
    On("PublishEligibilityEvalCheckinClientInterrupted",
       std::string(error_message), &network_stats, nullptr, phase_duration);
  }
  void PublishEligibilityEvalCheckinServerAborted(
      absl::string_view error_message, const NetworkStats& network_stats,
      absl::Duration phase_duration) override {
    On("PublishEligibilityEvalCheckinServerAborted", std::string(error_message),
       &network_stats, nullptr, phase_duration);
  }
  void PublishEligibilityEvalCheckinErrorInvalidPayload(
      absl::string_view error_message, const NetworkStats& network_stats,
      absl::Duration phase_duration) override {
    On("PublishEligibilityEvalCheckinErrorInvalidPayload",
       std::string(error_message), &network_stats, nullptr, phase_duration);
  }
  void PublishEligibilityEvalComputationStarted() override {
    On("PublishEligibilityEvalComputationStarted", "", nullptr, nullptr,
       absl::ZeroDuration());
  }
  void PublishEligibilityEvalComputationInvalidArgument(
      absl::string_view error_message, const ExampleStats& example_stats,
      absl::Duration phase_duration) override {
    On("PublishEligibilityEvalComputationInvalidArgument",
       std::string(error_message), nullptr, &example_stats, phase_duration);
  }
  void PublishEligibilityEvalComputationIOError(
      absl::string_view error_message, const ExampleStats& example_stats,
      absl::Duration phase_duration) override {
    On("PublishEligibilityEvalComputationIOError", std::string(error_message),
       nullptr, &example_stats, phase_duration);
  }
  void PublishEligibilityEvalComputationExampleIteratorError(
      absl::string_view error_message, const ExampleStats& example_stats,
      absl::Duration phase_duration) override {
    On("PublishEligibilityEvalComputationExampleIteratorError",
       std::string(error_message), nullptr, &example_stats, phase_duration);
  }
  void PublishEligibilityEvalComputationTensorflowError(
      absl::string_view error_message, const ExampleStats& example_stats,
      absl::Duration phase_duration) override {
    On("PublishEligibilityEvalComputationTensorflowError",
       std::string(error_message), nullptr, &example_stats, phase_duration);
  }
  void PublishEligibilityEvalComputationInterrupted(
      absl::string_view error_message, const ExampleStats& example_stats,
      absl::Duration phase_duration) override {
    On("PublishEligibilityEvalComputationInterrupted",
       std::string(error_message), nullptr, &example_stats, phase_duration);
  }
  void PublishEligibilityEvalComputationErrorNonfatal(
      absl::string_view error_message) override {
    On("PublishEligibilityEvalComputationErrorNonfatal",
       std::string(error_message), nullptr, nullptr, absl::ZeroDuration());
  }
  void PublishEligibilityEvalComputationCompleted(
      const ExampleStats& example_stats,
      absl::Duration phase_duration) override {
    On("PublishEligibilityEvalComputationCompleted", "", nullptr,
       &example_stats, phase_duration);
  }
  void PublishMultipleTaskAssignmentsStarted() override {
    On("PublishMultipleTaskAssignmentsStarted", "", nullptr, nullptr,
       absl::ZeroDuration());
  }
  void PublishMultipleTaskAssignmentsIOError(
      absl::string_view error_message, const NetworkStats& network_stats,
      absl::Duration phase_duration) override {
    On("PublishMultipleTaskAssignmentsIOError", std::string(error_message),
       &network_stats, nullptr, phase_duration);
  }
  void PublishMultipleTaskAssignmentsPayloadIOError(
      absl::string_view error_message) override {
    On("PublishMultipleTaskAssignmentsPayloadIOError",
       std::string(error_message), nullptr, nullptr, absl::ZeroDuration());
  }
  void PublishMultipleTaskAssignmentsInvalidPayload(
      absl::string_view error_message) override {
    On("PublishMultipleTaskAssignmentsInvalidPayload",
       std::string(error_message), nullptr, nullptr, absl::ZeroDuration());
  }
  void PublishMultipleTaskAssignmentsClientInterrupted(
      absl::string_view error_message, const NetworkStats& network_stats,
      absl::Duration phase_duration) override {
    On("PublishMultipleTaskAssignmentsClientInterrupted",
       std::string(error_message), &network_stats, nullptr, phase_duration);
  }
  void PublishMultipleTaskAssignmentsServerAborted(
      absl::string_view error_message, const NetworkStats& network_stats,
      absl::Duration phase_duration) override {
    On("PublishMultipleTaskAssignmentsServerAborted",
       std::string(error_message), &network_stats, nullptr, phase_duration);
  }
  void PublishMultipleTaskAssignmentsTurnedAway(
      const NetworkStats& network_stats,
      absl::Duration phase_duration) override {
    On("PublishMultipleTaskAssignmentsTurnedAway", "", &network_stats, nullptr,
       phase_duration);
  }
  void PublishMultipleTaskAssignmentsPlanUriReceived(
      const NetworkStats& network_stats,
      absl::Duration phase_duration) override {
    On("PublishMultipleTaskAssignmentsPlanUriReceived", "", &network_stats,
       nullptr, phase_duration);
  }
  void PublishMultipleTaskAssignmentsPlanUriPartialReceived(
      const NetworkStats& network_stats,
      absl::Duration phase_duration) override {
    On("PublishMultipleTaskAssignmentsPlanUriPartialReceived", "",
       &network_stats, nullptr, phase_duration);
  }
  void PublishMultipleTaskAssignmentsPartialCompleted(
      const NetworkStats& network_stats,
      absl::Duration phase_duration) override {
    On("PublishMultipleTaskAssignmentsPartialCompleted", "", &network_stats,
       nullptr, phase_duration);
  }
  void PublishMultipleTaskAssignmentsCompleted(
      const NetworkStats& network_stats,
      absl::Duration phase_duration) override {
    On("PublishMultipleTaskAssignmentsCompleted", "", &network_stats, nullptr,
       phase_duration);
  }
  void PublishCheckinIoError(absl::string_view error_message,
                             const NetworkStats& network_stats,
                             absl::Duration phase_duration) override {
    On("PublishCheckinIoError", std::string(error_message), &network_stats,
       nullptr, phase_duration);
  }
  void PublishCheckinClientInterrupted(absl::string_view error_message,
                                       const NetworkStats& network_stats,
                                       absl::Duration phase_duration) override {
    On("PublishCheckinClientInterrupted", std::string(error_message),
       &network_stats, nullptr, phase_duration);
  }
  void PublishCheckinServerAborted(absl::string_view error_message,
                                   const NetworkStats& network_stats,
                                   absl::Duration phase_duration) override {
    On("PublishCheckinServerAborted", std::string(error_message),
       &network_stats, nullptr, phase_duration);
  }
  void PublishCheckinInvalidPayload(absl::string_view error_message,
                                    const NetworkStats& network_stats,
                                    absl::Duration phase_duration) override {
    On("PublishCheckinInvalidPayload", std::string(error_message),
       &network_stats, nullptr, phase_duration);
  }
  void PublishRejected(const NetworkStats& network_stats,
                       absl::Duration phase_duration) override {
    On("PublishRejected", "", &network_stats, nullptr, phase_duration);
  }
  void PublishCheckinPlanUriReceived(const NetworkStats& network_stats,
                                     absl::Duration phase_duration) override {
    On("PublishCheckinPlanUriReceived", "", &network_stats, nullptr,
       phase_duration);
  }
  void PublishCheckinFinishedV2(const NetworkStats& network_stats,
                                absl::Duration phase_duration) override {
    On("PublishCheckinFinishedV2", "", &network_stats, nullptr, phase_duration);
  }
  void PublishComputationStarted() override {
    On("PublishComputationStarted", "", nullptr, nullptr, absl::ZeroDuration());
  }
  void PublishComputationInvalidArgument(
      absl::string_view error_message, const ExampleStats& example_stats,
      const NetworkStats& network_stats,
      absl::Duration phase_duration) override {
    On("PublishComputationInvalidArgument", std::string(error_message),
       &network_stats, &example_stats, phase_duration);
  }
  void PublishComputationIOError(absl::string_view error_message,
                                 const ExampleStats& example_stats,
                                 const NetworkStats& network_stats,
                                 absl::Duration phase_duration) override {
    On("PublishComputationIOError", std::string(error_message), &network_stats,
       &example_stats, phase_duration);
  }
  void PublishComputationExampleIteratorError(
      absl::string_view error_message, const ExampleStats& example_stats,
      const NetworkStats& network_stats,
      absl::Duration phase_duration) override {
    On("PublishComputationExampleIteratorError", std::string(error_message),
       &network_stats, &example_stats, phase_duration);
  }
  void PublishComputationTensorflowError(
      absl::string_view error_message, const ExampleStats& example_stats,
      const NetworkStats& network_stats,
      absl::Duration phase_duration) override {
    On("PublishComputationTensorflowError", std::string(error_message),
       &network_stats, &example_stats, phase_duration);
  }
  void PublishComputationInterrupted(absl::string_view error_message,
                                     const ExampleStats& example_stats,
                                     const NetworkStats& network_stats,
                                     absl::Duration phase_duration) override {
    On("PublishComputationInterrupted", std::string(error_message),
       &network_stats, &example_stats, phase_duration);
  }
  void PublishComputationCompleted(const ExampleStats& example_stats,
                                   const NetworkStats& network_stats,
                                   absl::Duration phase_duration) override {
    On("PublishComputationCompleted", "", &network_stats, &example_stats,
       phase_duration);
  }
  void PublishResultUploadStarted() override {
    On("PublishResultUploadStarted", "", nullptr, nullptr,
       absl::ZeroDuration());
  }
  void PublishResultUploadIOError(absl::string_view error_message,
                                  const NetworkStats& network_stats,
                                  absl::Duration phase_duration) override {
    On("PublishResultUploadIOError", std::string(error_message), &network_stats,
       nullptr, phase_duration);
  }
  void PublishResultUploadClientInterrupted(
      absl::string_view error_message, const NetworkStats& network_stats,
      absl::Duration phase_duration) override {
    On("PublishResultUploadClientInterrupted", std::string(error_message),
       &network_stats, nullptr, phase_duration);
  }
  void PublishResultUploadServerAborted(
      absl::string_view error_message, const NetworkStats& network_stats,
      absl::Duration phase_duration) override {
    On("PublishResultUploadServerAborted", std::string(error_message),
       &network_stats, nullptr, phase_duration);
  }
  void PublishResultUploadCompleted(const NetworkStats& network_stats,
                                    absl::Duration phase_duration) override {
    On("PublishResultUploadCompleted", "", &network_stats, nullptr,
       phase_duration);
  }
  void PublishFailureUploadStarted() override {
    On("PublishFailureUploadStarted", "", nullptr, nullptr,
       absl::ZeroDuration());
  }
  void PublishFailureUploadIOError(absl::string_view error_message,
                                   const NetworkStats& network_stats,
                                   absl::Duration phase_duration) override {
    On("PublishFailureUploadIOError", std::string(error_message),
       &network_stats, nullptr, phase_duration);
  }
  void PublishFailureUploadClientInterrupted(
      absl::string_view error_message, const NetworkStats& network_stats,
      absl::Duration phase_duration) override {
    On("PublishFailureUploadClientInterrupted", std::string(error_message),
       &network_stats, nullptr, phase_duration);
  }
  void PublishFailureUploadServerAborted(
      absl::string_view error_message, const NetworkStats& network_stats,
      absl::Duration phase_duration) override {
    On("PublishFailureUploadServerAborted", std::string(error_message),
       &network_stats, nullptr, phase_duration);
  }
  void PublishFailureUploadCompleted(const NetworkStats& network_stats,
                                     absl::Duration phase_duration) override {
    On("PublishFailureUploadCompleted", "", &network_stats, nullptr,
       phase_duration);
  }
  void SetModelIdentifier(const std::string& model_identifier) override {
    On("SetModelIdentifier", std::string(model_identifier), nullptr, nullptr,
       absl::ZeroDuration());
  }

 private:
  void On(const char* name, std::string message, const NetworkStats* net,
          const ExampleStats* examples, absl::Duration took) {
    Event e{name, std::move(message), std::nullopt, std::nullopt, took};
    if (net) e.net = *net;
    if (examples) e.examples = *examples;
    all.push_back(e);
    if (hook) hook(all.back());
  }
};

}  // namespace fakes
#endif  // VERIF_EVENT_RECORDER_H_
