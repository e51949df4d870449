package main

// settings are all documented settings with the member that holds them and their defaults.
var settings = []setting{
	{"obj_name", "ObjNameSimple", 's', "go1"},
	{"obj_type", "ObjType", 's', "golang"},
	{"trace_obj_send", "TraceObjSend", 'b', "false"},
	{"send_queue_size", "SendQueueSize", 'i', "3000"},
	{"net_collector_ip", "NetCollectorIP", 's', "127.0.0.1"},
	{"net_collector_udp_port", "NetCollectorUDPPort", 'i', "6100"},
	{"net_collector_tcp_port", "NetCollectorTCPPort", 'i', "6100"},
	{"net_collector_tcp_so_timeout_ms", "NetCollectorTcpSoTimeoutMs", 'i', "60000"},
	{"net_collector_tcp_connection_timeout_ms", "NetCollectorTcpConnectionTimeoutMs", 'i', "3000"},
	{"udp_max_bytes", "UDPMaxBytes", 'i', "60000"},
	{"stuck_service_base_time_ms", "StuckServiceBaseTimeMs", 'i', "300000"},
	{"stuck_service_remove_enabled", "StuckServiceRemoveEnabled", 'b', "true"},
	{"stuck_service_alert_enabled", "StuckServiceAlertEnabled", 'b', "true"},
	{"trace_activeservice_yellow_time", "TraceActiveserviceYellowTime", 'i', "3000"},
	{"trace_activeservice_red_time", "TraceActiveserviceRedTime", 'i', "8000"},
	{"profile_step_max_keep_in_memory_count", "ProfileStepMaxKeepInMemoryCount", 'i', "2048"},
	{"profile_step_max_count", "ProfileStepMaxCount", 'i', "1024"},
	{"profile_http_querystring_enabled", "ProfileHttpQuerystringEnabled", 'b', "false"},
	{"profile_http_header_enabled", "ProfileHttpHeaderEnabled", 'b', "false"},
	{"profile_http_header_keys", "ProfileHttpHeaderKeys", 's', ""},
	{"trace_http_client_ip_header_key", "TraceHttpClientIpHeaderKey", 's', ""},
	{"xlog_discard_service_patterns", "XlogDiscardServicePatterns", 's', ""},
	{"xlog_discard_service_show_error", "XlogDiscardServiceShowError", 'b', "true"},
	{"xlog_sampling_exclude_patterns", "XlogSamplingExcludePatterns", 's', ""},
	{"xlog_sampling_enabled", "XlogSamplingEnabled", 'b', "false"},
	{"xlog_sampling_only_profile", "XlogSamplingOnlyProfile", 'b', "false"},
	{"xlog_sampling_step1_ms", "XlogSamplingStep1Ms", 'i', "100"},
	{"xlog_sampling_step1_rate_pct", "XlogSamplingStep1RatePct", 'i', "2"},
	{"xlog_sampling_step2_ms", "XlogSamplingStep2Ms", 'i', "500"},
	{"xlog_sampling_step2_rate_pct", "XlogSamplingStep2RatePct", 'i', "7"},
	{"xlog_sampling_step3_ms", "XlogSamplingStep3Ms", 'i', "1000"},
	{"xlog_sampling_step3_rate_pct", "XlogSamplingStep3RatePct", 'i', "15"},
	{"xlog_sampling_over_rate_pct", "XlogSamplingOverRatePct", 'i', "3000"},
	{"xlog_patterned_sampling_enabled", "XlogPatternedSamplingEnabled", 'b', "false"},
	{"xlog_patterned_sampling_service_patterns", "XlogPatternedSamplingServicePatterns", 's', ""},
	{"xlog_patterned_sampling_only_profile", "XlogPatternedSamplingOnlyProfile", 'b', "false"},
	{"xlog_patterned_sampling_step1_ms", "XlogPatternedSamplingStep1Ms", 'i', "100"},
	{"xlog_patterned_sampling_step1_rate_pct", "XlogPatternedSamplingStep1RatePct", 'i', "2"},
	{"xlog_patterned_sampling_step2_ms", "XlogPatternedSamplingStep2Ms", 'i', "500"},
	{"xlog_patterned_sampling_step2_rate_pct", "XlogPatternedSamplingStep2RatePct", 'i', "7"},
	{"xlog_patterned_sampling_step3_ms", "XlogPatternedSamplingStep3Ms", 'i', "1000"},
	{"xlog_patterned_sampling_step3_rate_pct", "XlogPatternedSamplingStep3RatePct", 'i', "15"},
	{"xlog_patterned_sampling_over_rate_pct", "XlogPatternedSamplingOverRatePct", 'i', "3000"},
	{"xlog_patterned2_sampling_enabled", "XlogPatterned2SamplingEnabled", 'b', "false"},
	{"xlog_patterned2_sampling_service_patterns", "XlogPatterned2SamplingServicePatterns", 's', ""},
	{"xlog_patterned2_sampling_only_profile", "XlogPatterned2SamplingOnlyProfile", 'b', "false"},
	{"xlog_patterned2_sampling_step1_ms", "XlogPatterned2SamplingStep1Ms", 'i', "100"},
	{"xlog_patterned2_sampling_step1_rate_pct", "XlogPatterned2SamplingStep1RatePct", 'i', "2"},
	{"xlog_patterned2_sampling_step2_ms", "XlogPatterned2SamplingStep2Ms", 'i', "500"},
	{"xlog_patterned2_sampling_step2_rate_pct", "XlogPatterned2SamplingStep2RatePct", 'i', "7"},
	{"xlog_patterned2_sampling_step3_ms", "XlogPatterned2SamplingStep3Ms", 'i', "1000"},
	{"xlog_patterned2_sampling_step3_rate_pct", "XlogPatterned2SamplingStep3RatePct", 'i', "15"},
	{"xlog_patterned2_sampling_over_rate_pct", "XlogPatterned2SamplingOverRatePct", 'i', "3000"},
	{"xlog_patterned3_sampling_enabled", "XlogPatterned3SamplingEnabled", 'b', "false"},
	{"xlog_patterned3_sampling_service_patterns", "XlogPatterned3SamplingServicePatterns", 's', ""},
	{"xlog_patterned3_sampling_only_profile", "XlogPatterned3SamplingOnlyProfile", 'b', "false"},
	{"xlog_patterned3_sampling_step1_ms", "XlogPatterned3SamplingStep1Ms", 'i', "100"},
	{"xlog_patterned3_sampling_step1_rate_pct", "XlogPatterned3SamplingStep1RatePct", 'i', "2"},
	{"xlog_patterned3_sampling_step2_ms", "XlogPatterned3SamplingStep2Ms", 'i', "500"},
	{"xlog_patterned3_sampling_step2_rate_pct", "XlogPatterned3SamplingStep2RatePct", 'i', "7"},
	{"xlog_patterned3_sampling_step3_ms", "XlogPatterned3SamplingStep3Ms", 'i', "1000"},
	{"xlog_patterned3_sampling_step3_rate_pct", "XlogPatterned3SamplingStep3RatePct", 'i', "15"},
	{"xlog_patterned3_sampling_over_rate_pct", "XlogPatterned3SamplingOverRatePct", 'i', "3000"},
}
