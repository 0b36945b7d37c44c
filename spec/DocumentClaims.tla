---- MODULE DocumentClaims ----
(* The claims that each kind of document defines, the field through which a user of the library reads or sets
   each of them, and the kind of value it takes. A document may carry any further claim; the library passes it on. *)

Claims_federation_entity == <<
  [n |-> "federation_fetch_endpoint", f |-> "FederationFetchEndpoint", k |-> "str"],
  [n |-> "federation_list_endpoint", f |-> "FederationListEndpoint", k |-> "str"],
  [n |-> "federation_resolve_endpoint", f |-> "FederationResolveEndpoint", k |-> "str"],
  [n |-> "federation_trust_mark_status_endpoint", f |-> "FederationTrustMarkStatusEndpoint", k |-> "str"],
  [n |-> "federation_trust_mark_list_endpoint", f |-> "FederationTrustMarkListEndpoint", k |-> "str"],
  [n |-> "federation_trust_mark_endpoint", f |-> "FederationTrustMarkEndpoint", k |-> "str"],
  [n |-> "federation_historical_keys_endpoint", f |-> "FederationHistoricalLKeysEndpoint", k |-> "str"],
  [n |-> "display_name", f |-> "DisplayName", k |-> "str"],
  [n |-> "description", f |-> "Description", k |-> "str"],
  [n |-> "keywords", f |-> "Keywords", k |-> "strs"],
  [n |-> "contacts", f |-> "Contacts", k |-> "strs"],
  [n |-> "logo_uri", f |-> "LogoURI", k |-> "str"],
  [n |-> "policy_uri", f |-> "PolicyURI", k |-> "str"],
  [n |-> "information_uri", f |-> "InformationURI", k |-> "str"],
  [n |-> "organization_name", f |-> "OrganizationName", k |-> "str"],
  [n |-> "organization_uri", f |-> "OrganizationURI", k |-> "str"]
>>

Claims_openid_relying_party == <<
  [n |-> "scope", f |-> "Scope", k |-> "str"],
  [n |-> "redirect_uris", f |-> "RedirectURIS", k |-> "strs"],
  [n |-> "response_types", f |-> "ResponseTypes", k |-> "strs"],
  [n |-> "grant_types", f |-> "GrantTypes", k |-> "strs"],
  [n |-> "application_type", f |-> "ApplicationType", k |-> "str"],
  [n |-> "contacts", f |-> "Contacts", k |-> "strs"],
  [n |-> "client_name", f |-> "ClientName", k |-> "str"],
  [n |-> "logo_uri", f |-> "LogoURI", k |-> "str"],
  [n |-> "client_uri", f |-> "ClientURI", k |-> "str"],
  [n |-> "policy_uri", f |-> "PolicyURI", k |-> "str"],
  [n |-> "tos_uri", f |-> "TOSURI", k |-> "str"],
  [n |-> "sector_identifier_uri", f |-> "SectorIdentifierURI", k |-> "str"],
  [n |-> "subject_type", f |-> "SubjectType", k |-> "str"],
  [n |-> "id_token_signed_response_alg", f |-> "IDTokenSignedResponseAlg", k |-> "str"],
  [n |-> "id_token_encrypted_response_alg", f |-> "IDTokenEncryptedResponseAlg", k |-> "str"],
  [n |-> "id_token_encrypted_response_enc", f |-> "IDTokenEncryptedResponseEnc", k |-> "str"],
  [n |-> "userinfo_signed_response_alg", f |-> "UserinfoSignedResponseAlg", k |-> "str"],
  [n |-> "userinfo_encrypted_response_alg", f |-> "UserinfoEncryptedResponseAlg", k |-> "str"],
  [n |-> "userinfo_encrypted_response_enc", f |-> "UserinfoEncryptedResponseEnc", k |-> "str"],
  [n |-> "request_signed_response_alg", f |-> "RequestSignedResponseAlg", k |-> "str"],
  [n |-> "request_encrypted_response_alg", f |-> "RequestEncryptedResponseAlg", k |-> "str"],
  [n |-> "request_encrypted_response_enc", f |-> "RequestEncryptedResponseEnc", k |-> "str"],
  [n |-> "token_endpoint_auth_method", f |-> "TokenEndpointAuthMethod", k |-> "str"],
  [n |-> "token_endpoint_auth_signing_alg", f |-> "TokenEndpointAuthSigningAlg", k |-> "str"],
  [n |-> "default_max_age", f |-> "DefaultMaxAge", k |-> "int"],
  [n |-> "require_auth_time", f |-> "RequireAuthTime", k |-> "bool"],
  [n |-> "default_acr_values", f |-> "DefaultACRValues", k |-> "strs"],
  [n |-> "initiate_login_uri", f |-> "InitiateLoginURI", k |-> "str"],
  [n |-> "request_uris", f |-> "RequestURIs", k |-> "strs"],
  [n |-> "software_id", f |-> "SoftwareID", k |-> "str"],
  [n |-> "software_version", f |-> "SoftwareVersion", k |-> "str"],
  [n |-> "client_id", f |-> "ClientID", k |-> "str"],
  [n |-> "client_secret", f |-> "ClientSecret", k |-> "str"],
  [n |-> "client_id_issued_at", f |-> "ClientIDIssuedAt", k |-> "int"],
  [n |-> "client_secret_expires_at", f |-> "ClientSecretExpiresAt", k |-> "int"],
  [n |-> "registration_access_token", f |-> "RegistrationAccessToken", k |-> "str"],
  [n |-> "registration_client_uri", f |-> "RegistrationClientURI", k |-> "str"],
  [n |-> "claims_redirect_uris", f |-> "ClaimsRedirectURIs", k |-> "strs"],
  [n |-> "nfv_token_signed_response_alg", f |-> "NFVTokenSignedResponseAlg", k |-> "str"],
  [n |-> "nfv_token_encrypted_response_alg", f |-> "NFVTokenEncryptedResponseAlg", k |-> "str"],
  [n |-> "nfv_token_encrypted_response_enc", f |-> "NFVTokenEncryptedResponseEnc", k |-> "str"],
  [n |-> "tls_client_certificate_bound_access_tokens", f |-> "TLSClientCertificateBoundAccessTokens", k |-> "bool"],
  [n |-> "tls_client_auth_subject_dn", f |-> "TLSClientAuthSubjectDN", k |-> "str"],
  [n |-> "tls_client_auth_san_dns", f |-> "TLSClientAuthSANDNS", k |-> "str"],
  [n |-> "tls_client_auth_san_uri", f |-> "TLSClientAuthSANURI", k |-> "str"],
  [n |-> "tls_client_auth_san_ip", f |-> "TLSClientAuthSANIP", k |-> "str"],
  [n |-> "tls_client_auth_san_email", f |-> "TLSClientAuthSANEMAIL", k |-> "str"],
  [n |-> "require_signed_request_object", f |-> "RequireSignedRequestObject", k |-> "bool"],
  [n |-> "require_pushed_authorization_requests", f |-> "RequirePushedAuthorizationRequests", k |-> "bool"],
  [n |-> "introspection_signed_response_alg", f |-> "IntrospectionSignedResponseAlg", k |-> "str"],
  [n |-> "introspection_encrypted_response_alg", f |-> "IntrospectionEncryptedResponseAlg", k |-> "str"],
  [n |-> "introspection_encrypted_response_enc", f |-> "IntrospectionEncryptedResponseEnc", k |-> "str"],
  [n |-> "frontchannel_logout_uri", f |-> "FrontchannelLogoutURI", k |-> "str"],
  [n |-> "frontchannel_logout_session_required", f |-> "FrontchannelLogoutSessionRequired", k |-> "bool"],
  [n |-> "backchannel_logout_uri", f |-> "BackchannelLogoutURI", k |-> "str"],
  [n |-> "backchannel_logout_session_required", f |-> "BackchannelLogoutSessionRequired", k |-> "bool"],
  [n |-> "post_logout_redirect_uris", f |-> "PostLogoutRedirectURIs", k |-> "strs"],
  [n |-> "authorization_details_types", f |-> "AuthorizationDetailsTypes", k |-> "strs"],
  [n |-> "client_registration_types", f |-> "ClientRegistrationTypes", k |-> "strs"],
  [n |-> "signed_jwks_uri", f |-> "SignedJWKSURI", k |-> "str"],
  [n |-> "jwks_uri", f |-> "JWKSURI", k |-> "str"],
  [n |-> "jwks", f |-> "JWKS", k |-> "jwks"],
  [n |-> "display_name", f |-> "DisplayName", k |-> "str"],
  [n |-> "description", f |-> "Description", k |-> "str"],
  [n |-> "keywords", f |-> "Keywords", k |-> "strs"],
  [n |-> "information_uri", f |-> "InformationURI", k |-> "str"],
  [n |-> "organization_name", f |-> "OrganizationName", k |-> "str"],
  [n |-> "organization_uri", f |-> "OrganizationURI", k |-> "str"]
>>

Claims_openid_provider == <<
  [n |-> "issuer", f |-> "Issuer", k |-> "str"],
  [n |-> "authorization_endpoint", f |-> "AuthorizationEndpoint", k |-> "str"],
  [n |-> "token_endpoint", f |-> "TokenEndpoint", k |-> "str"],
  [n |-> "userinfo_endpoint", f |-> "UserinfoEndpoint", k |-> "str"],
  [n |-> "registration_endpoint", f |-> "RegistrationEndpoint", k |-> "str"],
  [n |-> "scopes_supported", f |-> "ScopesSupported", k |-> "strs"],
  [n |-> "response_types_supported", f |-> "ResponseTypesSupported", k |-> "strs"],
  [n |-> "response_modes_supported", f |-> "ResponseModesSupported", k |-> "strs"],
  [n |-> "grant_types_supported", f |-> "GrantTypesSupported", k |-> "strs"],
  [n |-> "acr_values_supported", f |-> "ACRValuesSupported", k |-> "strs"],
  [n |-> "subject_types_supported", f |-> "SubjectTypesSupported", k |-> "strs"],
  [n |-> "id_token_signed_response_alg_values_supported", f |-> "IDTokenSignedResponseAlgValuesSupported", k |-> "strs"],
  [n |-> "id_token_encrypted_response_alg_values_supported", f |-> "IDTokenEncryptedResponseAlgValuesSupported", k |-> "strs"],
  [n |-> "id_token_encrypted_response_enc_values_supported", f |-> "IDTokenEncryptedResponseEncValuesSupported", k |-> "strs"],
  [n |-> "userinfo_signed_response_alg_values_supported", f |-> "UserinfoSignedResponseAlgValuesSupported", k |-> "strs"],
  [n |-> "userinfo_encrypted_response_alg_values_supported", f |-> "UserinfoEncryptedResponseAlgValuesSupported", k |-> "strs"],
  [n |-> "userinfo_encrypted_response_enc_values_supported", f |-> "UserinfoEncryptedResponseEncValuesSupported", k |-> "strs"],
  [n |-> "request_signed_response_alg_values_supported", f |-> "RequestSignedResponseAlgValuesSupported", k |-> "strs"],
  [n |-> "request_encrypted_response_alg_values_supported", f |-> "RequestEncryptedResponseAlgValuesSupported", k |-> "strs"],
  [n |-> "request_encrypted_response_enc_values_supported", f |-> "RequestEncryptedResponseEncValuesSupported", k |-> "strs"],
  [n |-> "token_endpoint_auth_methods_supported", f |-> "TokenEndpointAuthMethodsSupported", k |-> "strs"],
  [n |-> "token_endpoint_auth_signing_alg_values_supported", f |-> "TokenEndpointAuthSigningAlgValuesSupported", k |-> "strs"],
  [n |-> "display_values_supported", f |-> "DisplayValuesSupported", k |-> "strs"],
  [n |-> "claims_supported", f |-> "ClaimsSupported", k |-> "strs"],
  [n |-> "service_documentation", f |-> "ServiceDocumentation", k |-> "str"],
  [n |-> "claims_locales_supported", f |-> "ClaimsLocalesSupported", k |-> "strs"],
  [n |-> "ui_locales_supported", f |-> "UILocalesSupported", k |-> "strs"],
  [n |-> "claims_parameter_supported", f |-> "ClaimsParameterSupported", k |-> "bool"],
  [n |-> "request_parameter_supported", f |-> "RequestParameterSupported", k |-> "bool"],
  [n |-> "request_uri_parameter_supported", f |-> "RequestURIParameterSupported", k |-> "bool"],
  [n |-> "require_request_uri_registration", f |-> "RequireRequestURIRegistration", k |-> "bool"],
  [n |-> "op_policy_uri", f |-> "OPPolicyURI", k |-> "str"],
  [n |-> "op_tos_uri", f |-> "OPTOSURI", k |-> "str"],
  [n |-> "revocation_endpoint", f |-> "RevocationEndpoint", k |-> "str"],
  [n |-> "revocation_endpoint_auth_methods_supported", f |-> "RevocationEndpointAuthMethodsSupported", k |-> "strs"],
  [n |-> "revocation_endpoint_auth_signing_alg_values_supported", f |-> "RevocationEndpointAuthSigningAlgValuesSupported", k |-> "strs"],
  [n |-> "introspection_endpoint", f |-> "IntrospectionEndpoint", k |-> "str"],
  [n |-> "introspection_endpoint_auth_methods_supported", f |-> "IntrospectionEndpointAuthMethodsSupported", k |-> "strs"],
  [n |-> "introspection_endpoint_auth_signing_alg_values_supported", f |-> "IntrospectionEndpointAuthSigningAlgValuesSupported", k |-> "strs"],
  [n |-> "introspection_signing_alg_values_supported", f |-> "IntrospectionSigningAlgValuesSupported", k |-> "strs"],
  [n |-> "introspection_encryption_alg_values_supported", f |-> "IntrospectionEncryptionAlgValuesSupported", k |-> "strs"],
  [n |-> "introspection_encryption_enc_values_supported", f |-> "IntrospectionEncryptionEncValuesSupported", k |-> "strs"],
  [n |-> "code_challenge_methods_supported", f |-> "CodeChallengeMethodsSupported", k |-> "strs"],
  [n |-> "signed_metadata", f |-> "SignedMetadata", k |-> "str"],
  [n |-> "device_authorization_endpoint", f |-> "DeviceAuthorizationEndpoint", k |-> "str"],
  [n |-> "tls_client_certificate_bound_access_tokens", f |-> "TLSClientCertificateBoundAccessTokens", k |-> "bool"],
  [n |-> "mtls_endpoint_aliases", f |-> "MTLSEndpointAliases", k |-> "strmap"],
  [n |-> "nfv_token_signing_alg_values_supported", f |-> "NFVTokenSigningAlgValuesSupported", k |-> "strs"],
  [n |-> "nfv_token_encryption_alg_values_supported", f |-> "NFVTokenEncryptionAlgValuesSupported", k |-> "strs"],
  [n |-> "nfv_token_encryption_enc_values_supported", f |-> "NFVTokenEncryptionEncValuesSupported", k |-> "strs"],
  [n |-> "require_signed_request_object", f |-> "RequireSignedRequestObject", k |-> "bool"],
  [n |-> "pushed_authorization_request_endpoint", f |-> "PushedAuthorizationRequestEndpoint", k |-> "str"],
  [n |-> "require_pushed_authorization_requests", f |-> "RequirePushedAuthorizationRequests", k |-> "bool"],
  [n |-> "authorization_response_iss_parameter_supported", f |-> "AuthorizationResponseIssParameterSupported", k |-> "bool"],
  [n |-> "check_session_iframe", f |-> "CheckSessionIFrame", k |-> "str"],
  [n |-> "frontchannel_logout_supported", f |-> "FrontchannelLogoutSupported", k |-> "bool"],
  [n |-> "backchannel_logout_supported", f |-> "BackchannelLogoutSupported", k |-> "bool"],
  [n |-> "backchannel_logout_session_supported", f |-> "BackchannelLogoutSessionSupported", k |-> "bool"],
  [n |-> "end_session_endpoint", f |-> "EndSessionEndpoint", k |-> "str"],
  [n |-> "backchannel_token_delivery_modes_supported", f |-> "BackchannelTokenDeliveryModesSupported", k |-> "strs"],
  [n |-> "backchannel_authentication_endpoint", f |-> "BackchannelAuthenticationEndpoint", k |-> "str"],
  [n |-> "backchannel_authentication_request_signing_alg_values_supported", f |-> "BackchannelAuthenticationRequestSigningAlgValuesSupported", k |-> "strs"],
  [n |-> "backchannel_user_code_parameter_supported", f |-> "BackchannelUserCodeParameterSupported", k |-> "bool"],
  [n |-> "authorization_details_types_supported", f |-> "AuthorizationDetailsTypesSupported", k |-> "strs"],
  [n |-> "client_registration_types_supported", f |-> "ClientRegistrationTypesSupported", k |-> "strs"],
  [n |-> "federation_registration_endpoint", f |-> "FederationRegistrationEndpoint", k |-> "str"],
  [n |-> "request_authentication_methods_supported", f |-> "RequestAuthenticationMethodsSupported", k |-> "strsmap"],
  [n |-> "request_authentication_signing_alg_values_supported", f |-> "RequestAuthenticationSigningAlgValuesSupported", k |-> "strs"],
  [n |-> "signed_jwks_uri", f |-> "SignedJWKSURI", k |-> "str"],
  [n |-> "jwks_uri", f |-> "JWKSURI", k |-> "str"],
  [n |-> "jwks", f |-> "JWKS", k |-> "jwks"],
  [n |-> "display_name", f |-> "DisplayName", k |-> "str"],
  [n |-> "description", f |-> "Description", k |-> "str"],
  [n |-> "keywords", f |-> "Keywords", k |-> "strs"],
  [n |-> "contacts", f |-> "Contacts", k |-> "strs"],
  [n |-> "logo_uri", f |-> "LogoURI", k |-> "str"],
  [n |-> "policy_uri", f |-> "PolicyURI", k |-> "str"],
  [n |-> "information_uri", f |-> "InformationURI", k |-> "str"],
  [n |-> "organization_name", f |-> "OrganizationName", k |-> "str"],
  [n |-> "organization_uri", f |-> "OrganizationURI", k |-> "str"]
>>

Claims_oauth_resource == <<
  [n |-> "resource", f |-> "Resource", k |-> "str"],
  [n |-> "authorization_servers", f |-> "AuthorizationServers", k |-> "strs"],
  [n |-> "scopes_supported", f |-> "ScopesSupported", k |-> "strs"],
  [n |-> "bearer_methods_supported", f |-> "BearerMethodsSupported", k |-> "strs"],
  [n |-> "resource_signing_alg_values_supported", f |-> "ResourceSigningAlgValuesSupported", k |-> "strs"],
  [n |-> "resource_encryption_alg_values_supported", f |-> "ResourceEncryptionAlgValuesSupported", k |-> "strs"],
  [n |-> "resource_encryption_enc_values_supported", f |-> "ResourceEncryptionEncValuesSupported", k |-> "strs"],
  [n |-> "resource_name", f |-> "ResourceName", k |-> "str"],
  [n |-> "resource_documentation", f |-> "ResourceDocumentation", k |-> "str"],
  [n |-> "resource_policy_uri", f |-> "ResourcePolicyURI", k |-> "str"],
  [n |-> "resource_tos_uri", f |-> "ResourceTOSURI", k |-> "str"],
  [n |-> "signed_jwks_uri", f |-> "SignedJWKSURI", k |-> "str"],
  [n |-> "jwks_uri", f |-> "JWKSURI", k |-> "str"],
  [n |-> "jwks", f |-> "JWKS", k |-> "jwks"],
  [n |-> "display_name", f |-> "DisplayName", k |-> "str"],
  [n |-> "description", f |-> "Description", k |-> "str"],
  [n |-> "keywords", f |-> "Keywords", k |-> "strs"],
  [n |-> "contacts", f |-> "Contacts", k |-> "strs"],
  [n |-> "logo_uri", f |-> "LogoURI", k |-> "str"],
  [n |-> "policy_uri", f |-> "PolicyURI", k |-> "str"],
  [n |-> "information_uri", f |-> "InformationURI", k |-> "str"],
  [n |-> "organization_name", f |-> "OrganizationName", k |-> "str"],
  [n |-> "organization_uri", f |-> "OrganizationURI", k |-> "str"]
>>

Claims_metadata == <<
  [n |-> "openid_provider", f |-> "OpenIDProvider", k |-> "entity"],
  [n |-> "openid_relying_party", f |-> "RelyingParty", k |-> "entity"],
  [n |-> "oauth_authorization_server", f |-> "OAuthAuthorizationServer", k |-> "entity"],
  [n |-> "oauth_client", f |-> "OAuthClient", k |-> "entity"],
  [n |-> "oauth_resource", f |-> "OAuthProtectedResource", k |-> "entity"],
  [n |-> "federation_entity", f |-> "FederationEntity", k |-> "entity"]
>>

Claims_metadata_policy == <<
  [n |-> "openid_provider", f |-> "OpenIDProvider", k |-> "policy"],
  [n |-> "openid_relying_party", f |-> "RelyingParty", k |-> "policy"],
  [n |-> "oauth_authorization_server", f |-> "OAuthAuthorizationServer", k |-> "policy"],
  [n |-> "oauth_client", f |-> "OAuthClient", k |-> "policy"],
  [n |-> "oauth_resource", f |-> "OAuthProtectedResource", k |-> "policy"],
  [n |-> "federation_entity", f |-> "FederationEntity", k |-> "policy"]
>>

Claims_constraints == <<
  [n |-> "max_path_length", f |-> "MaxPathLength", k |-> "int"],
  [n |-> "naming_constraints", f |-> "NamingConstraints", k |-> "naming"],
  [n |-> "allowed_entity_types", f |-> "AllowedEntityTypes", k |-> "strs"]
>>

Claims_naming == <<
  [n |-> "permitted", f |-> "Permitted", k |-> "strs"],
  [n |-> "excluded", f |-> "Excluded", k |-> "strs"]
>>

Claims_statement == <<
  [n |-> "iss", f |-> "Issuer", k |-> "str"],
  [n |-> "sub", f |-> "Subject", k |-> "str"],
  [n |-> "iat", f |-> "IssuedAt", k |-> "time"],
  [n |-> "exp", f |-> "ExpiresAt", k |-> "time"],
  [n |-> "jwks", f |-> "JWKS", k |-> "jwks"],
  [n |-> "aud", f |-> "Audience", k |-> "str"],
  [n |-> "authority_hints", f |-> "AuthorityHints", k |-> "strs"],
  [n |-> "metadata", f |-> "Metadata", k |-> "metadata"],
  [n |-> "metadata_policy", f |-> "MetadataPolicy", k |-> "policies"],
  [n |-> "constraints", f |-> "Constraints", k |-> "constraints"],
  [n |-> "crit", f |-> "CriticalExtensions", k |-> "strs"],
  [n |-> "metadata_policy_crit", f |-> "MetadataPolicyCrit", k |-> "strs"],
  [n |-> "trust_marks", f |-> "TrustMarks", k |-> "infos"],
  [n |-> "trust_mark_issuers", f |-> "TrustMarkIssuers", k |-> "issuers"],
  [n |-> "trust_mark_owners", f |-> "TrustMarkOwners", k |-> "owners"],
  [n |-> "source_endpoint", f |-> "SourceEndpoint", k |-> "str"],
  [n |-> "trust_anchor_id", f |-> "TrustAnchorID", k |-> "str"]
>>

Claims_trust_mark == <<
  [n |-> "iss", f |-> "Issuer", k |-> "str"],
  [n |-> "sub", f |-> "Subject", k |-> "str"],
  [n |-> "trust_mark_type", f |-> "TrustMarkType", k |-> "str"],
  [n |-> "iat", f |-> "IssuedAt", k |-> "time"],
  [n |-> "logo_uri", f |-> "LogoURI", k |-> "str"],
  [n |-> "exp", f |-> "ExpiresAt", k |-> "time"],
  [n |-> "ref", f |-> "Ref", k |-> "str"],
  [n |-> "delegation", f |-> "DelegationJWT", k |-> "str"]
>>

Claims_delegation == <<
  [n |-> "iss", f |-> "Issuer", k |-> "str"],
  [n |-> "sub", f |-> "Subject", k |-> "str"],
  [n |-> "trust_mark_type", f |-> "TrustMarkType", k |-> "str"],
  [n |-> "iat", f |-> "IssuedAt", k |-> "time"],
  [n |-> "exp", f |-> "ExpiresAt", k |-> "time"],
  [n |-> "ref", f |-> "Ref", k |-> "str"]
>>

Claims_info == <<
  [n |-> "trust_mark_type", f |-> "TrustMarkType", k |-> "str"],
  [n |-> "trust_mark", f |-> "TrustMarkJWT", k |-> "str"]
>>

Claims_spec == <<
  [n |-> "trust_mark_type", f |-> "TrustMarkType", k |-> "str"],
  [n |-> "lifetime", f |-> "Lifetime", k |-> "duration"],
  [n |-> "ref", f |-> "Ref", k |-> "str"],
  [n |-> "logo_uri", f |-> "LogoURI", k |-> "str"],
  [n |-> "include_extra_claims_in_info", f |-> "IncludeExtraClaimsInInfo", k |-> "bool"],
  [n |-> "delegation_jwt", f |-> "DelegationJWT", k |-> "str"]
>>

Claims_resolve_response == <<
  [n |-> "iss", f |-> "Issuer", k |-> "str"],
  [n |-> "sub", f |-> "Subject", k |-> "str"],
  [n |-> "iat", f |-> "IssuedAt", k |-> "time"],
  [n |-> "exp", f |-> "ExpiresAt", k |-> "time"],
  [n |-> "aud", f |-> "Audience", k |-> "str"],
  [n |-> "metadata", f |-> "Metadata", k |-> "metadata"],
  [n |-> "trust_marks", f |-> "TrustMarks", k |-> "infos"],
  [n |-> "trust_chain", f |-> "TrustChain", k |-> "jwts"]
>>

Claims_owner == <<
  [n |-> "sub", f |-> "ID", k |-> "str"],
  [n |-> "jwks", f |-> "JWKS", k |-> "jwks"]
>>

Claims_ui_info == <<
  [n |-> "display_name", f |-> "DisplayName", k |-> "str"],
  [n |-> "description", f |-> "Description", k |-> "str"],
  [n |-> "keywords", f |-> "Keywords", k |-> "strs"],
  [n |-> "logo_uri", f |-> "LogoURI", k |-> "str"],
  [n |-> "policy_uri", f |-> "PolicyURI", k |-> "str"],
  [n |-> "information_uri", f |-> "InformationURI", k |-> "str"]
>>

Claims_collected_entity == <<
  [n |-> "entity_id", f |-> "EntityID", k |-> "str"],
  [n |-> "trust_marks", f |-> "TrustMarks", k |-> "infos"],
  [n |-> "trust_chain", f |-> "TrustChain", k |-> "jwts"],
  [n |-> "entity_types", f |-> "EntityTypes", k |-> "strs"],
  [n |-> "ui_infos", f |-> "UIInfos", k |-> "uiinfos"]
>>

Claims_collection_response == <<
  [n |-> "federation_entities", f |-> "FederationEntities", k |-> "collected"],
  [n |-> "next_entity_id", f |-> "NextEntityID", k |-> "str"],
  [n |-> "last_updated", f |-> "LastUpdated", k |-> "time"]
>>

Claims == [
  ui_info |-> Claims_ui_info,
  collected_entity |-> Claims_collected_entity,
  collection_response |-> Claims_collection_response,
  federation_entity |-> Claims_federation_entity,
  openid_relying_party |-> Claims_openid_relying_party,
  openid_provider |-> Claims_openid_provider,
  oauth_authorization_server |-> Claims_openid_provider,
  oauth_client |-> Claims_openid_relying_party,
  oauth_resource |-> Claims_oauth_resource,
  metadata |-> Claims_metadata,
  metadata_policy |-> Claims_metadata_policy,
  constraints |-> Claims_constraints,
  naming |-> Claims_naming,
  statement |-> Claims_statement,
  trust_mark |-> Claims_trust_mark,
  delegation |-> Claims_delegation,
  info |-> Claims_info,
  spec |-> Claims_spec,
  resolve_response |-> Claims_resolve_response,
  owner |-> Claims_owner
]
====
