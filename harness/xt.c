/* The XSLT and XSD processors themselves, used directly: the reference for the transform and validate commands.
   xt t SHEET DOC [NAME EXPR]...   prints S<state> and the top level nodes of the result inside <R>...</R>, preceded by the doctype
   xt v SCHEMA DOC                 prints V (valid), I (invalid), B (not a schema) */
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include <libxml/parser.h>
#include <libxml/tree.h>
#include <libxml/xmlschemas.h>
#include <libxslt/xslt.h>
#include <libxslt/xsltInternals.h>
#include <libxslt/transform.h>
#include <libxslt/xsltutils.h>

static void plain(xmlNodePtr n)
{
    for (; n; n = n->next)
    {
        if (n->type == XML_CDATA_SECTION_NODE) n->type = XML_TEXT_NODE;
        if (n->type == XML_ELEMENT_NODE) plain(n->children);
    }
}

static void quiet(void *c, const char *m, ...) { (void)c; (void)m; }

int main(int argc, char **argv)
{
    if (argc < 4) return 2;
    xmlSetGenericErrorFunc(NULL, quiet);
    xsltSetGenericErrorFunc(NULL, quiet);
    int opt = XML_PARSE_NOENT | XML_PARSE_NOCDATA | XML_PARSE_NONET | XML_PARSE_NOERROR | XML_PARSE_NOWARNING;
    xmlDocPtr s = xmlReadFile(argv[2], NULL, opt), d = xmlReadFile(argv[3], NULL, opt);
    if (!s || !d) { printf("P%s\n", s ? "doc" : "sheet"); return 0; }
    if (argv[1][0] == 't')
    {
        xsltStylesheetPtr x = xsltParseStylesheetDoc(s);
        if (!x) { printf("B\n"); return 0; }
        if (x->errors) { printf("B\n"); return 0; }
        xsltTransformContextPtr ctx = xsltNewTransformContext(x, d);
        xmlDocPtr r = xsltApplyStylesheetUser(x, d, (const char**)(argc > 4 ? argv + 4 : NULL), NULL, NULL, ctx);
        printf("S%d\n", r ? (int)ctx->state : 99);
        if (r)
        {
            plain(r->children);
            xmlBufferPtr b = xmlBufferCreate();
            for (xmlNodePtr n = r->children; n; n = n->next)
            {
                if (n->type == XML_DTD_NODE) printf("D%s\x1f%s\x1f%s\n", n->name, ((xmlDtdPtr)n)->ExternalID ? (char*)((xmlDtdPtr)n)->ExternalID : "", ((xmlDtdPtr)n)->SystemID ? (char*)((xmlDtdPtr)n)->SystemID : "");
                else xmlNodeDump(b, r, n, 0, 0);
            }
            printf("<R>%s</R>", (char*)xmlBufferContent(b));
        }
        return 0;
    }
    xmlSchemaParserCtxtPtr pc = xmlSchemaNewDocParserCtxt(s);
    xmlSchemaSetParserErrors(pc, quiet, quiet, NULL);
    xmlSchemaPtr xs = xmlSchemaParse(pc);
    if (!xs) { printf("B\n"); return 0; }
    xmlSchemaValidCtxtPtr v = xmlSchemaNewValidCtxt(xs);
    xmlSchemaSetValidErrors(v, quiet, quiet, NULL);
    printf("%s\n", xmlSchemaValidateDoc(v, d) == 0 ? "V" : "I");
    return 0;
}
