"""members of every object of the three specifications, written down from the
specifications (not from the code).

class -> {member: kind}
  'v'       plain value              'v!'      plain value, required
  'X'       object X                 '[X]'     list of X
  '{X}'     mapping of X             '?X'      Reference when '$ref' in it
  'b?X'     boolean, or ?X           'bX'      boolean, or X
  's'       string (inside [] {})
A trailing '!' marks required children."""

SCHEMA20 = {k: 'v' for k in (
    'type', 'format', 'default', 'maximum', 'exclusiveMaximum', 'minimum',
    'exclusiveMinimum', 'maxLength', 'minLength', 'maxItems', 'minItems',
    'multipleOf', 'enum', 'pattern', 'uniqueItems')}


def _(*ds, **kw):
    out = {}
    for d in ds:
        out.update(d)
    out.update(kw)
    return out


def vals(s, req=''):
    out = {k: 'v' for k in s.split()}
    out.update({k: 'v!' for k in req.split()})
    return out


DT12 = _(vals('type $ref format defaultValue enum minimum maximum '
              'uniqueItems'), items='Items')
T12 = {
    'ResourceListing': _(vals('apiVersion', 'swaggerVersion'),
                         apis='[ResourceInListing]', info='Info',
                         authorizations='{Authorization}'),
    'ResourceInListing': vals('path description'),
    'Info': vals('termsOfServiceUrl contact license licenseUrl',
                 'title description'),
    'Authorization': _(vals('type passAs keyname'), scopes='[Scope]',
                       grantTypes='GrantTypes'),
    'Scope': vals('description', 'scope'),
    'GrantTypes': {'implicit': 'Implicit',
                   'authorization_code': 'AuthorizationCode'},
    'Implicit': {'tokenName': 'v', 'loginEndpoint': 'LoginEndpoint!'},
    'AuthorizationCode': {'tokenRequestEndpoint': 'TokenRequestEndpoint',
                          'tokenEndpoint': 'TokenEndpoint'},
    'LoginEndpoint': vals('', 'url'),
    'TokenRequestEndpoint': vals('clientIdName clientSecretName', 'url'),
    'TokenEndpoint': vals('tokenName', 'url'),
    'ApiDeclaration': _(vals('apiVersion resourcePath produces consumes',
                             'swaggerVersion basePath'),
                        apis='[Api]!', models='{Model}',
                        authorizations='{[Authorizations]}'),
    'Api': _(vals('description', 'path'), operations='[Operation]'),
    'Operation': _(DT12, vals('summary notes produces consumes deprecated',
                              'method nickname'),
                   authorizations='{[Authorizations]}',
                   parameters='[Parameter]',
                   responseMessages='[ResponseMessage]'),
    'Parameter': _(DT12, vals('description required allowMultiple',
                              'paramType name')),
    'ResponseMessage': vals('responseModel', 'code message'),
    'Authorizations': vals('scope description'),
    'Model': _(vals('description required subTypes discriminator', 'id'),
               properties='{Property}!'),
    'Property': _(DT12, description='v'),
    'Items': vals('$ref type format'),
}

OP20 = _(vals('operationId deprecated description summary'),
         tags='[s]', consumes='[s]', produces='[s]', schemes='[s]',
         parameters='[?Parameter]', responses='{?Response}',
         security='[{[s]}]', externalDocs='ExternalDocumentation')
M20 = 'get put post delete options head patch'.split()
T20 = {
    'Swagger': _(vals('swagger host basePath'), info='Info', schemes='[s]',
                 consumes='[s]', produces='[s]', paths='{PathItem}',
                 definitions='{Schema}', parameters='{Parameter}',
                 responses='{Response}', securityDefinitions='{SecurityScheme}',
                 security='[{[s]}]', tags='[Tag]',
                 externalDocs='ExternalDocumentation'),
    'Info': _(vals('version title description termsOfService'),
              contact='Contact', license='License'),
    'Contact': vals('name url email'),
    'License': vals('name url'),
    'PathItem': _({'$ref': 'v'}, {m: 'Operation' for m in M20},
                  parameters='[?Parameter]'),
    'Operation': OP20,
    'ExternalDocumentation': vals('description url'),
    'Parameter': _(SCHEMA20, vals('name in required collectionFormat '
                                  'description allowEmptyValue'),
                   schema='Schema', items='Items'),
    'Items': _(SCHEMA20, vals('collectionFormat'), items='Items'),
    'Response': _(vals('description examples'), schema='Schema',
                  headers='{Header}'),
    'Header': _(SCHEMA20, vals('collectionFormat description'), items='Items'),
    'Tag': _(vals('name description'), externalDocs='ExternalDocumentation'),
    'Reference': vals('$ref'),
    'Schema': _(SCHEMA20, vals('$ref maxProperties minProperties title '
                               'description discriminator readOnly example '
                               'required'),
                xml='XMLObject', externalDocs='ExternalDocumentation',
                items='Schema', allOf='[Schema]', properties='{Schema}',
                additionalProperties='bSchema'),
    'XMLObject': vals('name namespace prefix attribute wrapped'),
    'SecurityScheme': _(vals('type description name in flow authorizationUrl '
                             'tokenUrl'), scopes='{s}'),
}
D20 = {('Parameter', 'collectionFormat'): 'csv',
       ('Items', 'collectionFormat'): 'csv',
       ('Header', 'collectionFormat'): 'csv', ('Schema', 'required'): []}

PARAM30 = _(vals('description required deprecated allowEmptyValue style '
                 'explode allowReserved example'),
            examples='{?Example}', schema='?Schema', content='{MediaType}')
T30 = {
    'OpenApi': _(vals('openapi'), info='Info', servers='[Server]',
                 paths='{PathItem}', components='Components',
                 security='[{[s]}]', tags='[Tag]',
                 externalDocs='ExternalDocumentation'),
    'Info': _(vals('description termsOfService', 'title version'),
              contact='Contact', license='License'),
    'Contact': vals('name url email'),
    'License': vals('url', 'name'),
    'Server': _(vals('description', 'url'), variables='{ServerVariable}'),
    'ServerVariable': _(vals('description', 'default'), enum='[s]'),
    'Components': {
        'schemas': '{?Schema}', 'responses': '{?Response}',
        'parameters': '{?Parameter}', 'examples': '{?Example}',
        'requestBodies': '{?RequestBody}', 'headers': '{?Header}',
        'securitySchemes': '{?SecurityScheme}', 'links': '{?Link}',
        'callbacks': '{?Callback}'},
    'PathItem': _(vals('$ref summary description'),
                  {m: 'Operation' for m in M20 + ['trace']},
                  servers='[Server]', parameters='[?Parameter]'),
    'Operation': _(vals('summary description operationId deprecated'),
                   externalDocs='ExternalDocumentation', tags='[s]',
                   parameters='[?Parameter]', requestBody='?RequestBody',
                   responses='{?Response}', security='[{[s]}]',
                   servers='[Server]', callbacks='{?Callback}'),
    'ExternalDocumentation': vals('description', 'url'),
    'Parameter': _(PARAM30, vals('', 'name in')),
    'Header': PARAM30,
    'RequestBody': _(vals('description required'), content='{MediaType}!'),
    'MediaType': _(vals('example'), schema='?Schema', examples='{?Example}',
                   encoding='{Encoding}'),
    'Encoding': _(vals('contentType style explode allowReserved'),
                  headers='{?Header}'),
    'Response': _(vals('', 'description'), headers='{?Header}',
                  content='{MediaType}', links='{?Link}'),
    'Example': vals('summary description value externalValue'),
    'Link': _(vals('operationRef operationId requestBody description'),
              server='Server', parameters='{s}'),
    'Tag': _(vals('description', 'name'), externalDocs='ExternalDocumentation'),
    'Reference': vals('', '$ref'),
    'Schema': _(SCHEMA20, vals(
        'title maxProperties minProperties required description nullable '
        'readOnly writeOnly example deprecated'),
        discriminator='Discriminator', xml='XML_',
        externalDocs='ExternalDocumentation', allOf='[?Schema]',
        oneOf='[?Schema]', anyOf='[?Schema]', items='?Schema',
        properties='{?Schema}', additionalProperties='b?Schema'),
    'Discriminator': _(vals('propertyName'), mapping='{s}'),
    'XML_': vals('name namespace prefix attribute wrapped'),
    'SecurityScheme': _(vals('description name in scheme bearerFormat '
                             'openIdConnectUrl', 'type'), flows='OAuthFlows'),
    'OAuthFlows': {k: 'OAuthFlow' for k in (
        'implicit', 'password', 'clientCredentials', 'authorizationCode')},
    'OAuthFlow': _(vals('authorizationUrl tokenUrl refreshUrl'),
                   scopes='{s}!'),
}
T30['Schema']['not'] = '?Schema'
D30 = {('Header', 'in'): 'header'}
VERSIONS = {'1.2': ('o12', T12, {}), '2.0': ('o20', T20, D20),
            '3.0.0': ('o30', T30, D30)}

# mappings whose values are objects: Callback is a mapping of PathItem
MAPS = {('3.0.0', 'Callback'): 'PathItem'}

WORDS = {'$ref': 'ref', 'openIdConnectUrl': 'openid_connect_url',
         'xml': 'xml_' }
KEYWORDS = ('type', 'format', 'in', 'not', 'id')


def snake(name):
    """the documented alias of a member: snake_case, '_' after names that
    clash with the language"""
    if name in WORDS:
        return WORDS[name]
    out = ''
    for c in name:
        out += '_' + c.lower() if c.isupper() else c
    if name in KEYWORDS:
        out += '_'
    return out
