"""The checks: which harness files and tests decide which property."""

ASSUME = ['Go 1.24 runtime and standard library', 'pgregory.net/rapid generators and shrinking']

H3 = ['proxy/verif_%s_test.go' % n for n in 'lab routing http iplist clientauth identity sso cookies headers host paths redirect static xfcc pkiweb sshweb relay h3'.split()]
HTTP = ['proxy/verif_routing_test.go', 'proxy/verif_http_test.go', 'proxy/verif_iplist_test.go', 'proxy/verif_clientauth_test.go', 'proxy/verif_identity_test.go', 'proxy/verif_sso_test.go']
LAB = ['proxy/verif_lab_test.go']

CHECKS = {
    'C26': dict(parts=[
        dict(name='netw', pkg='proxy/internal/verif_netw', files=['netw/counters_test.go'], synctest=True,
             tests='TestC26Counter|TestC26Conn', ntests=2, budget=10, procs=6),
        dict(name='proxy', pkg='proxy', files=LAB + HTTP + ['proxy/verif_counts_test.go', 'proxy/verif_limits_test.go', 'proxy/verif_console_test.go'],
             tests='TestC26Proxy', budget=12, procs=8),
        dict(name='quic', pkg='proxy', files=LAB + HTTP + ['proxy/verif_relay_test.go', 'proxy/verif_h3_test.go', 'proxy/verif_counts_test.go', 'proxy/verif_limits_test.go', 'proxy/verif_console_test.go', 'proxy/verif_countsquic_test.go'],
             tests='TestC26Proxy', budget=8, procs=8),
    ], assumptions=ASSUME),
    'C25': dict(parts=[
        dict(name='netw', pkg='proxy/internal/verif_netw', files=['netw/counters_test.go'], synctest=True,
             tests='TestC25Limit', budget=15, procs=6),
        dict(name='proxy', pkg='proxy', files=LAB + ['proxy/verif_routing_test.go', 'proxy/verif_limits_test.go'],
             tests='TestC25Proxy', budget=25, procs=8),
        dict(name='quic', pkg='proxy', files=LAB + HTTP + ['proxy/verif_relay_test.go', 'proxy/verif_h3_test.go', 'proxy/verif_limits_test.go', 'proxy/verif_limitsquic_test.go'],
             tests='TestC25Proxy', budget=15, procs=8),
    ], assumptions=ASSUME),
    'C12': dict(parts=[
        dict(name='tokens', pkg='proxy/internal/verif_tokens', files=['tokens/common_test.go', 'tokens/rotation_test.go'],
             synctest=True, tests='TestC12Rotation', budget=25, procs=8, shrinktime=40),
        dict(name='published', pkg='proxy/internal/verif_tokens', files=['tokens/common_test.go', 'tokens/published_test.go'],
             tests='TestC12Published', budget=8, procs=4),
        dict(name='tpm', pkg='proxy/internal/verif_tokens', files=['tokens/common_test.go', 'tokens/rotation_test.go', 'tokens/tpm_test.go'],
             synctest=True, tests='TestC12TPM', budget=8, procs=8, thorough=dict(tests='TestC12Rotation|TestC12TPM', ntests=2)),
    ], assumptions=ASSUME),
    'C11': dict(parts=[
        dict(name='tokens', pkg='proxy/internal/verif_tokens', files=['tokens/common_test.go', 'tokens/genuine_test.go'],
             tests='TestC11Tokens', budget=15, procs=8),
    ], assumptions=ASSUME),
    'C13': dict(parts=[
        dict(name='tokens', pkg='proxy/internal/verif_tokens', files=['tokens/common_test.go', 'tokens/genuine_test.go'],
             tests='TestC13URLToken', budget=10, procs=8),
        dict(name='redirects', pkg='proxy', files=LAB + ['proxy/verif_routing_test.go', 'proxy/verif_http_test.go', 'proxy/verif_sso_test.go', 'proxy/verif_redirect_test.go'],
             tests='TestC13Redirects', budget=15, procs=8),
    ], assumptions=ASSUME),
    'C20': dict(parts=[
        dict(name='sshca', pkg='proxy/internal/verif_sshca', files=['sshca/sshca_test.go'], synctest=True,
             tests='TestC20SSHCA', budget=15, procs=8),
        dict(name='tpm', pkg='proxy/internal/verif_sshca', files=['sshca/sshca_test.go', 'sshca/tpm_test.go'], synctest=True,
             tests='TestC20SSHCA', budget=8, procs=8),
        dict(name='web', pkg='proxy', files=LAB + ['proxy/verif_routing_test.go', 'proxy/verif_http_test.go', 'proxy/verif_sshweb_test.go'],
             tests='TestC20Web', budget=10, procs=8),
    ], assumptions=ASSUME),
    'C21': dict(parts=[
        dict(name='ocsp', pkg='proxy/internal/verif_ocsp', files=['ocsp/ocsp_test.go'], synctest=True,
             tests='TestC21OCSP', budget=15, procs=8),
    ], assumptions=ASSUME),
    'C14': dict(parts=[
        dict(name='oidc', pkg='proxy/internal/verif_oidc', files=['oidc/common_test.go', 'oidc/client_test.go'], synctest=True,
             tests='TestC14Client', budget=15, procs=8),
    ], assumptions=ASSUME),
    'C15': dict(parts=[
        dict(name='oidc', pkg='proxy/internal/verif_oidc', files=['oidc/common_test.go', 'oidc/server_test.go'], synctest=True,
             tests='TestC15Server', budget=15, procs=8),
    ], assumptions=ASSUME),
    'C16': dict(parts=[
        dict(name='saml', pkg='proxy/internal/verif_saml', files=['saml/saml_test.go'], synctest=True,
             tests='TestC16SAML', budget=15, procs=8),
    ], assumptions=ASSUME),
    'C17': dict(parts=[
        dict(name='passkeys', pkg='proxy/internal/verif_passkeys', files=['passkeys/manager_test.go'], synctest=True,
             tests='TestC17Passkeys', budget=20, procs=8),
    ], assumptions=ASSUME),
    'C35': dict(parts=[
        dict(name='passkeys', pkg='proxy/internal/verif_passkeys', files=['passkeys/manager_test.go', 'passkeys/messages_test.go'], synctest=True,
             tests='TestC35Attestation|TestC35Assertion', ntests=2, budget=9, procs=8, fuzz=['FuzzC35']),
    ], assumptions=ASSUME),
    'C01': dict(parts=[
        dict(name='routing', pkg='proxy', files=['proxy/verif_lab_test.go', 'proxy/verif_routing_test.go'],
             tests='TestC01Routing', budget=20, procs=8),
    ], assumptions=ASSUME),
    'C02': dict(parts=[
        dict(name='hello', pkg='proxy', files=['proxy/verif_lab_test.go', 'proxy/verif_hello_test.go'],
             tests='TestC02ClientHello', budget=20, procs=8),
    ], assumptions=ASSUME),
    'C04': dict(parts=[
        dict(name='clientauth', pkg='proxy', files=['proxy/verif_lab_test.go', 'proxy/verif_routing_test.go', 'proxy/verif_clientauth_test.go'],
             tests='TestC04ClientAuth', budget=20, procs=8),
    ], assumptions=ASSUME),
    'C03': dict(parts=[
        dict(name='iplist', pkg='proxy', files=['proxy/verif_lab_test.go', 'proxy/verif_routing_test.go', 'proxy/verif_clientauth_test.go', 'proxy/verif_iplist_test.go'],
             tests='TestC03IPLists', budget=20, procs=8),
    ], assumptions=ASSUME),
    'C06': dict(parts=[
        dict(name='cookies', pkg='proxy', files=LAB + ['proxy/verif_http_test.go', 'proxy/verif_cookies_test.go'],
             tests='TestC06Cookies', budget=15, procs=8),
    ], assumptions=ASSUME),
    'C07': dict(parts=[
        dict(name='identity', pkg='proxy', files=LAB + ['proxy/verif_iplist_test.go', 'proxy/verif_routing_test.go', 'proxy/verif_clientauth_test.go', 'proxy/verif_http_test.go', 'proxy/verif_identity_test.go'],
             tests='TestC07Identity', budget=15, procs=8),
    ], assumptions=ASSUME),
    'C08': dict(parts=[
        dict(name='host', pkg='proxy', files=LAB + ['proxy/verif_routing_test.go', 'proxy/verif_http_test.go', 'proxy/verif_host_test.go'],
             tests='TestC08Host', budget=15, procs=8),
    ], assumptions=ASSUME),
    'C05': dict(parts=[
        dict(name='sso', pkg='proxy', files=LAB + ['proxy/verif_routing_test.go', 'proxy/verif_http_test.go', 'proxy/verif_sso_test.go'],
             tests='TestC05SSO', budget=20, procs=8),
    ], assumptions=ASSUME),
    'C09': dict(parts=[
        dict(name='paths', pkg='proxy', files=LAB + ['proxy/verif_routing_test.go', 'proxy/verif_http_test.go', 'proxy/verif_sso_test.go', 'proxy/verif_paths_test.go'],
             tests='TestC09Paths', budget=20, procs=8),
    ], assumptions=ASSUME),
    'C28': dict(parts=[
        dict(name='config', pkg='proxy', files=LAB + ['proxy/verif_routing_test.go', 'proxy/verif_http_test.go', 'proxy/verif_config_test.go'],
             tests='TestC28Config', budget=20, procs=8, fuzz=['FuzzC28Config']),
    ], assumptions=ASSUME),
    'C29': dict(parts=[
        dict(name='headers', pkg='proxy', files=LAB + ['proxy/verif_routing_test.go', 'proxy/verif_http_test.go', 'proxy/verif_iplist_test.go', 'proxy/verif_clientauth_test.go', 'proxy/verif_identity_test.go', 'proxy/verif_headers_test.go'],
             tests='TestC29Headers', budget=15, procs=8),
    ], assumptions=ASSUME),
    'C10': dict(parts=[
        dict(name='static', pkg='proxy', files=LAB + ['proxy/verif_routing_test.go', 'proxy/verif_http_test.go', 'proxy/verif_sso_test.go', 'proxy/verif_static_test.go'],
             tests='TestC10Static', budget=15, procs=8),
    ], assumptions=ASSUME),
    'C38': dict(parts=[
        dict(name='unused', pkg='proxy', files=LAB + ['proxy/verif_routing_test.go', 'proxy/verif_revoke_test.go'],
             tests='TestC38Unused', budget=20, procs=8),
    ], assumptions=ASSUME),
    'C32': dict(parts=[
        dict(name='bridge', pkg='proxy', files=LAB + HTTP + ['proxy/verif_bridge_test.go', 'proxy/verif_flow_test.go', 'proxy/verif_websocket_test.go'], tests='TestC32WebSocket', budget=20, procs=8),
        dict(name='idle', pkg='proxy', files=LAB + HTTP + ['proxy/verif_bridge_test.go', 'proxy/verif_flow_test.go', 'proxy/verif_websocket_test.go'], tests='TestC32Idle', budget=1, procs=1, checks=1, shrinktime=1, slack=500),
    ], assumptions=ASSUME),
    'C34': dict(parts=[
        dict(name='h3-relay', pkg='proxy', files=LAB + HTTP + ['proxy/verif_relay_test.go', 'proxy/verif_h3_test.go'], tests='TestC39Relay', budget=8, procs=8),
        dict(name='h3-http', pkg='proxy', files=H3, tests='TestC05SSO|TestC06Cookies|TestC07Identity|TestC08Host|TestC09Paths|TestC10Static|TestC13Redirects|TestC29Headers|TestC37XFCC|TestC19Web|TestC20Web', ntests=11, budget=3, procs=8),
        dict(name='access', pkg='proxy', files=LAB + HTTP + ['proxy/verif_relay_test.go', 'proxy/verif_h3_test.go', 'proxy/verif_quic_test.go'], tests='TestC34Access', budget=10, procs=8),
        dict(name='change', pkg='proxy', files=LAB + HTTP + ['proxy/verif_relay_test.go', 'proxy/verif_h3_test.go', 'proxy/verif_quic_test.go'], tests='TestC34Change', budget=8, procs=8),
        dict(name='streams', pkg='proxy', files=LAB + HTTP + ['proxy/verif_relay_test.go', 'proxy/verif_h3_test.go', 'proxy/verif_bridge_test.go', 'proxy/verif_flow_test.go', 'proxy/verif_quicstreams_test.go'], tests='TestC34Streams', budget=10, procs=8),
    ], assumptions=ASSUME),
    'C39': dict(parts=[
        dict(name='relay', pkg='proxy', files=LAB + HTTP + ['proxy/verif_relay_test.go'], tests='TestC39Relay', budget=12, procs=8),
        dict(name='concurrent', pkg='proxy', files=LAB + HTTP + ['proxy/verif_relay_test.go'], tests='TestC39Concurrent', budget=6, procs=8),
        dict(name='upgrade', pkg='proxy', files=LAB + HTTP + ['proxy/verif_relay_test.go'], tests='TestC39Upgrade', budget=6, procs=8),
    ], assumptions=ASSUME),
    'C36': dict(parts=[
        dict(name='package', pkg='proxy/internal/verif_clientwasm', files=['clientwasm/package_test.go'],
             tests='TestC36Package', budget=20, procs=8),
    ], assumptions=ASSUME),
    'C37': dict(parts=[
        dict(name='xfcc', pkg='proxy', files=LAB + HTTP + ['proxy/verif_clientauth_test.go', 'proxy/verif_xfcc_test.go'], tests='TestC37XFCC', budget=15, procs=8),
    ], assumptions=ASSUME),
    'C33': dict(parts=[
        dict(name='certificates', pkg='proxy', files=LAB + ['proxy/verif_routing_test.go', 'proxy/verif_localcerts_test.go'], tests='TestC33LocalCertificates', budget=20, procs=8),
    ], assumptions=ASSUME),
    'C22': dict(parts=[
        dict(name='streams', pkg='proxy', files=LAB + HTTP + ['proxy/verif_bridge_test.go'], tests='TestC22Streams', budget=25, procs=8),
        dict(name='conn', pkg='proxy/internal/verif_netw', files=['netw/streams_test.go'], synctest=True, tests='TestC22Conn', budget=8, procs=6),
    ], assumptions=ASSUME),
    'C24': dict(parts=[
        dict(name='headers', pkg='proxy', files=LAB + HTTP + ['proxy/verif_iplist_test.go', 'proxy/verif_pheader_test.go'], tests='TestC24ProxyHeaders', budget=20, procs=8),
    ], assumptions=ASSUME),
    'C18': dict(parts=[
        dict(name='requests', pkg='proxy/internal/verif_pki', files=['pki/common_test.go', 'pki/issue_test.go'],
             tests='TestC18Issue', budget=20, procs=8),
        dict(name='tpm', pkg='proxy/internal/verif_pki', files=['pki/common_test.go', 'pki/issue_test.go', 'pki/tpm_test.go'],
             tests='TestC18Issue', budget=8, procs=8),
    ], assumptions=ASSUME),
    'C19': dict(parts=[
        dict(name='history', pkg='proxy/internal/verif_pki', files=['pki/common_test.go', 'pki/revocation_test.go'], synctest=True,
             tests='TestC19Revocation', budget=18, procs=8),
        dict(name='tpm', pkg='proxy/internal/verif_pki', files=['pki/common_test.go', 'pki/revocation_test.go', 'pki/tpm_test.go'], synctest=True,
             tests='TestC19Revocation', budget=10, procs=8),
        dict(name='web', pkg='proxy', files=LAB + ['proxy/verif_routing_test.go', 'proxy/verif_http_test.go', 'proxy/verif_pkiweb_test.go'],
             tests='TestC19Web', budget=12, procs=8),
    ], assumptions=ASSUME),
    'C31': dict(parts=[
        dict(name='crash', pkg='proxy/internal/verif_crash', files=['crash/crash_test.go'],
             tests='TestC31Crash', budget=25, procs=8, shrinktime=20),
        dict(name='proxy', pkg='proxy', files=LAB + ['proxy/verif_crash_test.go'],
             tests='TestC31Proxy', budget=15, procs=8, shrinktime=20),
    ], assumptions=ASSUME),
    'C23': dict(parts=[
        dict(name='rotation', pkg='proxy', files=LAB + ['proxy/verif_routing_test.go', 'proxy/verif_http_test.go', 'proxy/verif_rotation_test.go'],
             tests='TestC23Rotation', budget=20, procs=8),
    ], assumptions=ASSUME),
    'C27': dict(parts=[
        dict(name='reconfigure', pkg='proxy', files=LAB + ['proxy/verif_routing_test.go', 'proxy/verif_http_test.go', 'proxy/verif_iplist_test.go', 'proxy/verif_clientauth_test.go', 'proxy/verif_rotation_test.go', 'proxy/verif_slots_test.go', 'proxy/verif_reconfig_test.go'],
             tests='TestC27Reconfigure', budget=25, procs=8),
        dict(name='discovery', pkg='proxy', files=LAB + ['proxy/verif_routing_test.go', 'proxy/verif_http_test.go', 'proxy/verif_rotation_test.go', 'proxy/verif_discovery_test.go'],
             tests='TestC27Discovery|TestC27DiscoveryNever', ntests=2, budget=6, procs=4, shrinktime=10, slack=400),
        dict(name='reload', pkg='proxy/internal/verif_main', files=['mainprog/shutdown_test.go', 'mainprog/reload_test.go'], bins=[('tlsproxy', '.')],
             tests='TestC27Reload', budget=1, procs=6, shrinktime=10, slack=400),
    ], assumptions=ASSUME),
    'C30': dict(parts=[
        dict(name='slots', pkg='proxy', files=LAB + ['proxy/verif_routing_test.go', 'proxy/verif_http_test.go', 'proxy/verif_iplist_test.go', 'proxy/verif_clientauth_test.go', 'proxy/verif_rotation_test.go', 'proxy/verif_slots_test.go'],
             tests='TestC30Slots', budget=25, procs=8),
        dict(name='quic', pkg='proxy', files=LAB + HTTP + ['proxy/verif_relay_test.go', 'proxy/verif_rotation_test.go', 'proxy/verif_h3_test.go', 'proxy/verif_slotsquic_test.go'],
             tests='TestC30QUIC', budget=12, procs=8),
    ], assumptions=ASSUME),
    'C40': dict(parts=[
        dict(name='upstream', pkg='proxy', files=LAB + ['proxy/verif_routing_test.go', 'proxy/verif_clientauth_test.go', 'proxy/verif_http_test.go', 'proxy/verif_upstreamauth_test.go'], tests='TestC40UpstreamIdentity', budget=15, procs=8),
        dict(name='upstream-quic', pkg='proxy', files=LAB + HTTP + ['proxy/verif_relay_test.go', 'proxy/verif_h3_test.go', 'proxy/verif_upstreamauth_test.go'], tests='TestC40UpstreamIdentity', budget=15, procs=8),
    ], assumptions=ASSUME),
    'C41': dict(parts=[
        dict(name='console', pkg='proxy', files=LAB + HTTP + ['proxy/verif_console_test.go'], tests='TestC41Console', budget=20, procs=8),
    ], assumptions=ASSUME),
    'C42': dict(parts=[
        dict(name='tlsclient', pkg='proxy/internal/verif_tlsclient', files=['tlsclient/tlsclient_test.go'], bins=[('tlsclient', 'tlsclient')],
             tests='TestC42Client', budget=15, procs=8),
    ], assumptions=ASSUME),
    'C43': dict(parts=[
        dict(name='shutdown', pkg='proxy/internal/verif_main', files=['mainprog/shutdown_test.go'], bins=[('tlsproxy', '.')],
             tests='TestC43Shutdown', budget=20, procs=8),
    ], assumptions=ASSUME),
}

NOT_APPLICABLE = {}
